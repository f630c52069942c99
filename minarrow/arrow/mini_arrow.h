// A small stand-in for the subset of Apache Arrow that paimon-cpp uses. Arrow is not installed in
// the sandbox; this shim implements the Arrow memory layouts, builders and C data interface so that
// the real paimon code above it can be compiled and simulated.
#pragma once

#include <array>
#include <atomic>
#include <cassert>
#include <cmath>
#include <cstdint>
#include <cstring>
#include <functional>
#include <iterator>
#include <limits>
#include <map>
#include <memory>
#include <optional>
#include <sstream>
#include <string>
#include <string_view>
#include <type_traits>
#include <unordered_map>
#include <utility>
#include <variant>
#include <vector>

#include "arrow/c/abi.h"

namespace arrow {

// ---------------------------------------------------------------- Status / Result
enum class StatusCode : char {
    OK = 0,
    OutOfMemory = 1,
    KeyError = 2,
    TypeError = 3,
    Invalid = 4,
    IOError = 5,
    CapacityError = 6,
    IndexError = 7,
    Cancelled = 8,
    UnknownError = 9,
    NotImplemented = 10,
    SerializationError = 11,
    AlreadyExists = 45
};

class Status {
 public:
    Status() = default;
    Status(StatusCode code, std::string msg)
        : state_(code == StatusCode::OK
                     ? nullptr
                     : std::make_shared<std::pair<StatusCode, std::string>>(code, std::move(msg))) {}
    bool ok() const { return !state_; }
    StatusCode code() const { return state_ ? state_->first : StatusCode::OK; }
    const std::string& message() const {
        static const std::string empty;
        return state_ ? state_->second : empty;
    }
    std::string ToString() const {
        if (ok()) return "OK";
        return "arrow error: " + message();
    }
    std::string ToStringWithoutContextLines() const { return ToString(); }
    bool IsInvalid() const { return code() == StatusCode::Invalid; }
    bool IsIOError() const { return code() == StatusCode::IOError; }
    bool IsOutOfMemory() const { return code() == StatusCode::OutOfMemory; }
    bool IsNotImplemented() const { return code() == StatusCode::NotImplemented; }
    bool Equals(const Status& o) const { return code() == o.code() && message() == o.message(); }

    static Status OK() { return Status(); }
#define MINI_ARROW_STATUS(NAME)                                   \
    template <typename... Args>                                   \
    static Status NAME(Args&&... args) {                          \
        std::ostringstream ss;                                    \
        (void)std::initializer_list<int>{((ss << args), 0)...};   \
        return Status(StatusCode::NAME, ss.str());                \
    }
    MINI_ARROW_STATUS(OutOfMemory)
    MINI_ARROW_STATUS(KeyError)
    MINI_ARROW_STATUS(TypeError)
    MINI_ARROW_STATUS(Invalid)
    MINI_ARROW_STATUS(IOError)
    MINI_ARROW_STATUS(CapacityError)
    MINI_ARROW_STATUS(IndexError)
    MINI_ARROW_STATUS(UnknownError)
    MINI_ARROW_STATUS(NotImplemented)
    MINI_ARROW_STATUS(SerializationError)
#undef MINI_ARROW_STATUS

 private:
    std::shared_ptr<std::pair<StatusCode, std::string>> state_;
};

template <typename T>
class Result {
 public:
    Result() : status_(Status::UnknownError("uninitialized Result")) {}
    Result(const Status& s) : status_(s) {}  // NOLINT
    Result(Status&& s) : status_(std::move(s)) {}  // NOLINT
    template <typename U, typename = std::enable_if_t<
                              std::is_convertible_v<U, T> &&
                              !std::is_same_v<std::decay_t<U>, Status> &&
                              !std::is_same_v<std::decay_t<U>, Result<T>>>>
    Result(U&& v) : value_(std::in_place, std::forward<U>(v)) {}  // NOLINT
    bool ok() const { return status_.ok(); }
    const Status& status() const { return status_; }
    T& ValueOrDie() & { if (!ok()) abort(); return *value_; }
    const T& ValueOrDie() const& { if (!ok()) abort(); return *value_; }
    T ValueOrDie() && { if (!ok()) abort(); return std::move(*value_); }
    T& ValueUnsafe() & { return *value_; }
    const T& ValueUnsafe() const& { return *value_; }
    T ValueUnsafe() && { return std::move(*value_); }
    T& operator*() & { return *value_; }
    const T& operator*() const& { return *value_; }
    T operator*() && { return std::move(*value_); }
    T* operator->() { return &*value_; }
    template <typename U>
    T ValueOr(U&& alt) && { return ok() ? std::move(*value_) : static_cast<T>(std::forward<U>(alt)); }
    Status Value(T* out) && {
        if (ok()) *out = std::move(*value_);
        return status_;
    }

 private:
    Status status_;
    std::optional<T> value_;
};

#define ARROW_CONCAT_IMPL(a, b) a##b
#define ARROW_CONCAT(a, b) ARROW_CONCAT_IMPL(a, b)
#define ARROW_RETURN_NOT_OK(expr)               \
    do {                                        \
        ::arrow::Status _st = (expr);           \
        if (!_st.ok()) return _st;              \
    } while (false)
#define ARROW_ASSIGN_OR_RAISE_IMPL(name, lhs, rexpr) \
    auto&& name = (rexpr);                           \
    if (!name.ok()) return name.status();            \
    lhs = std::move(name).ValueUnsafe();
#define ARROW_ASSIGN_OR_RAISE(lhs, rexpr) \
    ARROW_ASSIGN_OR_RAISE_IMPL(ARROW_CONCAT(_arrow_err_, __COUNTER__), lhs, rexpr)
#define ARROW_RETURN_IF(cond, status) \
    do {                              \
        if (cond) return (status);    \
    } while (false)

// ---------------------------------------------------------------- memory
constexpr int64_t kDefaultBufferAlignment = 64;
constexpr int64_t kUnknownNullCount = -1;

namespace internal {
class MemoryPoolStats {
 public:
    void DidAllocateBytes(int64_t size) {
        Bump(bytes_.fetch_add(size) + size);
        total_ += size;
        num_++;
    }
    void DidReallocateBytes(int64_t old_size, int64_t new_size) {
        if (new_size > old_size) total_ += new_size - old_size;
        Bump(bytes_.fetch_add(new_size - old_size) + new_size - old_size);
        num_++;
    }
    void DidFreeBytes(int64_t size) { bytes_ -= size; }
    int64_t bytes_allocated() const { return bytes_; }
    int64_t max_memory() const { return max_; }
    int64_t total_bytes_allocated() const { return total_; }
    int64_t num_allocations() const { return num_; }

 private:
    void Bump(int64_t v) {
        int64_t m = max_.load();
        while (m < v && !max_.compare_exchange_weak(m, v)) {
        }
    }
    std::atomic<int64_t> bytes_{0}, max_{0}, total_{0}, num_{0};
};

template <typename Out, typename In>
inline Out checked_cast(In&& value) {
    return dynamic_cast<Out>(value);
}
template <class T, class U>
std::shared_ptr<T> checked_pointer_cast(std::shared_ptr<U> r) noexcept {
    return std::dynamic_pointer_cast<T>(std::move(r));
}
template <class T, class U>
std::unique_ptr<T> checked_pointer_cast(std::unique_ptr<U> r) noexcept {
    T* p = dynamic_cast<T*>(r.get());
    if (p) r.release();
    return std::unique_ptr<T>(p);
}
uint32_t crc32(uint32_t prev, const void* data, size_t length);
bool StringToFloat(const char* s, size_t length, char decimal_point, float* out);
bool StringToFloat(const char* s, size_t length, char decimal_point, double* out);
}  // namespace internal
using internal::checked_pointer_cast;

class MemoryPool {
 public:
    virtual ~MemoryPool() = default;
    Status Allocate(int64_t size, uint8_t** out) { return Allocate(size, kDefaultBufferAlignment, out); }
    virtual Status Allocate(int64_t size, int64_t alignment, uint8_t** out) = 0;
    virtual Status Reallocate(int64_t old_size, int64_t new_size, int64_t alignment,
                              uint8_t** ptr) = 0;
    virtual void Free(uint8_t* buffer, int64_t size, int64_t alignment) = 0;
    virtual void ReleaseUnused() {}
    virtual int64_t bytes_allocated() const = 0;
    virtual int64_t max_memory() const { return 0; }
    virtual int64_t total_bytes_allocated() const = 0;
    virtual int64_t num_allocations() const = 0;
    virtual std::string backend_name() const = 0;
};
MemoryPool* default_memory_pool();

class Buffer {
 public:
    Buffer(const uint8_t* data, int64_t size) : data_(data), size_(size) {}
    virtual ~Buffer() = default;
    const uint8_t* data() const { return data_; }
    uint8_t* mutable_data() { return const_cast<uint8_t*>(data_); }
    int64_t size() const { return size_; }
    int64_t capacity() const { return size_; }
    template <typename T>
    const T* data_as() const { return reinterpret_cast<const T*>(data_); }
    template <typename T>
    T* mutable_data_as() { return reinterpret_cast<T*>(mutable_data()); }
    std::string ToString() const { return std::string(reinterpret_cast<const char*>(data_), size_); }
    operator std::string_view() const {
        return std::string_view(reinterpret_cast<const char*>(data_), size_);
    }
    static std::shared_ptr<Buffer> FromString(std::string s);

 protected:
    const uint8_t* data_;
    int64_t size_;
};
using BufferVector = std::vector<std::shared_ptr<Buffer>>;

class ResizableBuffer : public Buffer {
 public:
    explicit ResizableBuffer(MemoryPool* pool)
        : Buffer(nullptr, 0), pool_(pool ? pool : default_memory_pool()) {}
    ~ResizableBuffer() override;
    Status Resize(int64_t new_size, bool shrink = true);
    Status Reserve(int64_t cap);
    void ZeroPadding() {}

 private:
    MemoryPool* pool_;
    int64_t cap_ = 0;
};
Result<std::unique_ptr<Buffer>> AllocateBuffer(int64_t size, MemoryPool* pool = nullptr);
Result<std::unique_ptr<ResizableBuffer>> AllocateResizableBuffer(int64_t size,
                                                                 MemoryPool* pool = nullptr);

namespace bit_util {
inline bool GetBit(const uint8_t* bits, int64_t i) { return (bits[i >> 3] >> (i & 7)) & 1; }
inline void SetBit(uint8_t* bits, int64_t i) { bits[i >> 3] |= uint8_t(1u << (i & 7)); }
inline void ClearBit(uint8_t* bits, int64_t i) { bits[i >> 3] &= uint8_t(~(1u << (i & 7))); }
inline void SetBitTo(uint8_t* bits, int64_t i, bool v) { v ? SetBit(bits, i) : ClearBit(bits, i); }
inline int64_t BytesForBits(int64_t n) { return (n + 7) >> 3; }
}  // namespace bit_util

// ---------------------------------------------------------------- types
struct Type {
    enum type {
        NA = 0, BOOL, UINT8, INT8, UINT16, INT16, UINT32, INT32, UINT64, INT64, HALF_FLOAT, FLOAT,
        DOUBLE, STRING, BINARY, FIXED_SIZE_BINARY, DATE32, DATE64, TIMESTAMP, TIME32, TIME64,
        INTERVAL_MONTHS, INTERVAL_DAY_TIME, DECIMAL128, DECIMAL = DECIMAL128, DECIMAL256, LIST,
        STRUCT, SPARSE_UNION, DENSE_UNION, DICTIONARY, MAP, EXTENSION, FIXED_SIZE_LIST, DURATION,
        LARGE_STRING, LARGE_BINARY, LARGE_LIST, MAX_ID
    };
};
struct TimeUnit {
    enum type { SECOND = 0, MILLI = 1, MICRO = 2, NANO = 3 };
};
namespace internal {
std::string ToString(Type::type id);
}

class Field;
class DataType;
class Array;
class StructType;
struct Scalar;
using FieldVector = std::vector<std::shared_ptr<Field>>;
using ArrayVector = std::vector<std::shared_ptr<Array>>;
using DataTypeVector = std::vector<std::shared_ptr<DataType>>;

class KeyValueMetadata {
 public:
    KeyValueMetadata() = default;
    KeyValueMetadata(std::vector<std::string> keys, std::vector<std::string> values)
        : keys_(std::move(keys)), values_(std::move(values)) {}
    explicit KeyValueMetadata(const std::unordered_map<std::string, std::string>& m) {
        std::map<std::string, std::string> sorted(m.begin(), m.end());
        for (auto& kv : sorted) Append(kv.first, kv.second);
    }
    static std::shared_ptr<KeyValueMetadata> Make(std::vector<std::string> keys,
                                                  std::vector<std::string> values) {
        return std::make_shared<KeyValueMetadata>(std::move(keys), std::move(values));
    }
    void Append(std::string k, std::string v) {
        keys_.push_back(std::move(k));
        values_.push_back(std::move(v));
    }
    int64_t size() const { return static_cast<int64_t>(keys_.size()); }
    const std::string& key(int64_t i) const { return keys_[i]; }
    const std::string& value(int64_t i) const { return values_[i]; }
    const std::vector<std::string>& keys() const { return keys_; }
    const std::vector<std::string>& values() const { return values_; }
    int FindKey(std::string_view k) const {
        for (size_t i = 0; i < keys_.size(); i++)
            if (keys_[i] == k) return static_cast<int>(i);
        return -1;
    }
    bool Contains(std::string_view k) const { return FindKey(k) >= 0; }
    Result<std::string> Get(std::string_view k) const {
        int i = FindKey(k);
        if (i < 0) return Status::KeyError(std::string(k));
        return values_[i];
    }
    Status Set(std::string k, std::string v) {
        int i = FindKey(k);
        if (i < 0) Append(std::move(k), std::move(v));
        else values_[i] = std::move(v);
        return Status::OK();
    }
    std::shared_ptr<KeyValueMetadata> Copy() const { return Make(keys_, values_); }
    std::shared_ptr<KeyValueMetadata> Merge(const KeyValueMetadata& o) const {
        auto r = Copy();
        for (int64_t i = 0; i < o.size(); i++) (void)r->Set(o.key(i), o.value(i));
        return r;
    }
    void ToUnorderedMap(std::unordered_map<std::string, std::string>* out) const {
        for (size_t i = 0; i < keys_.size(); i++) (*out)[keys_[i]] = values_[i];
    }
    bool Equals(const KeyValueMetadata& o) const {
        std::multimap<std::string, std::string> a, b;
        for (int64_t i = 0; i < size(); i++) a.emplace(key(i), value(i));
        for (int64_t i = 0; i < o.size(); i++) b.emplace(o.key(i), o.value(i));
        return a == b;
    }
    std::string ToString() const;

 private:
    std::vector<std::string> keys_, values_;
};

class DataType : public std::enable_shared_from_this<DataType> {
 public:
    explicit DataType(Type::type id) : id_(id) {}
    virtual ~DataType() = default;
    Type::type id() const { return id_; }
    virtual std::string name() const { return ToString(); }
    virtual std::string ToString(bool show_metadata = false) const = 0;
    bool Equals(const DataType& o, bool check_metadata = false) const;
    bool Equals(const std::shared_ptr<DataType>& o, bool check_metadata = false) const {
        return o && Equals(*o, check_metadata);
    }
    const std::shared_ptr<Field>& field(int i) const { return children_[i]; }
    const FieldVector& fields() const { return children_; }
    int num_fields() const { return static_cast<int>(children_.size()); }
    // byte width of fixed width types, bit-packed bool = 0, otherwise -1
    virtual int byte_width() const { return -1; }

 protected:
    Type::type id_;
    FieldVector children_;
};

#define MINI_PRIM(NAME, ID, CTYPE, STR)                                          \
    class NAME : public DataType {                                              \
     public:                                                                    \
        static constexpr Type::type type_id = Type::ID;                         \
        using c_type = CTYPE;                                                   \
        NAME() : DataType(Type::ID) {}                                          \
        std::string ToString(bool = false) const override { return STR; }       \
        int byte_width() const override { return sizeof(CTYPE); }               \
        static std::string type_name() { return STR; }                          \
    };
MINI_PRIM(UInt8Type, UINT8, uint8_t, "uint8")
MINI_PRIM(Int8Type, INT8, int8_t, "int8")
MINI_PRIM(UInt16Type, UINT16, uint16_t, "uint16")
MINI_PRIM(Int16Type, INT16, int16_t, "int16")
MINI_PRIM(UInt32Type, UINT32, uint32_t, "uint32")
MINI_PRIM(Int32Type, INT32, int32_t, "int32")
MINI_PRIM(UInt64Type, UINT64, uint64_t, "uint64")
MINI_PRIM(Int64Type, INT64, int64_t, "int64")
MINI_PRIM(FloatType, FLOAT, float, "float")
MINI_PRIM(DoubleType, DOUBLE, double, "double")
MINI_PRIM(Date32Type, DATE32, int32_t, "date32[day]")
#undef MINI_PRIM

class NullType : public DataType {
 public:
    static constexpr Type::type type_id = Type::NA;
    NullType() : DataType(Type::NA) {}
    std::string ToString(bool = false) const override { return "null"; }
};
class BooleanType : public DataType {
 public:
    static constexpr Type::type type_id = Type::BOOL;
    using c_type = bool;
    BooleanType() : DataType(Type::BOOL) {}
    std::string ToString(bool = false) const override { return "bool"; }
    int byte_width() const override { return 0; }
};
class TimestampType : public DataType {
 public:
    static constexpr Type::type type_id = Type::TIMESTAMP;
    using c_type = int64_t;
    using Unit = TimeUnit;
    explicit TimestampType(TimeUnit::type unit = TimeUnit::MILLI, std::string tz = "")
        : DataType(Type::TIMESTAMP), unit_(unit), tz_(std::move(tz)) {}
    TimeUnit::type unit() const { return unit_; }
    const std::string& timezone() const { return tz_; }
    std::string ToString(bool = false) const override;
    int byte_width() const override { return 8; }

 private:
    TimeUnit::type unit_;
    std::string tz_;
};
class BinaryType : public DataType {
 public:
    static constexpr Type::type type_id = Type::BINARY;
    using offset_type = int32_t;
    BinaryType() : DataType(Type::BINARY) {}
    std::string ToString(bool = false) const override { return "binary"; }

 protected:
    explicit BinaryType(Type::type id) : DataType(id) {}
};
class StringType : public BinaryType {
 public:
    static constexpr Type::type type_id = Type::STRING;
    StringType() : BinaryType(Type::STRING) {}
    std::string ToString(bool = false) const override { return "string"; }
};
class LargeBinaryType : public DataType {
 public:
    static constexpr Type::type type_id = Type::LARGE_BINARY;
    using offset_type = int64_t;
    LargeBinaryType() : DataType(Type::LARGE_BINARY) {}
    std::string ToString(bool = false) const override { return "large_binary"; }

 protected:
    explicit LargeBinaryType(Type::type id) : DataType(id) {}
};
class LargeStringType : public LargeBinaryType {
 public:
    static constexpr Type::type type_id = Type::LARGE_STRING;
    LargeStringType() : LargeBinaryType(Type::LARGE_STRING) {}
    std::string ToString(bool = false) const override { return "large_string"; }
};
class FixedSizeBinaryType : public DataType {
 public:
    static constexpr Type::type type_id = Type::FIXED_SIZE_BINARY;
    explicit FixedSizeBinaryType(int w, Type::type id = Type::FIXED_SIZE_BINARY)
        : DataType(id), w_(w) {}
    int byte_width() const override { return w_; }
    std::string ToString(bool = false) const override {
        return "fixed_size_binary[" + std::to_string(w_) + "]";
    }

 protected:
    int w_;
};
class DecimalType : public FixedSizeBinaryType {
 public:
    DecimalType(Type::type id, int w, int32_t p, int32_t s)
        : FixedSizeBinaryType(w, id), p_(p), s_(s) {}
    int32_t precision() const { return p_; }
    int32_t scale() const { return s_; }

 protected:
    int32_t p_, s_;
};
class Decimal128Type : public DecimalType {
 public:
    static constexpr Type::type type_id = Type::DECIMAL128;
    Decimal128Type(int32_t p, int32_t s) : DecimalType(Type::DECIMAL128, 16, p, s) {}
    std::string ToString(bool = false) const override {
        return "decimal128(" + std::to_string(p_) + ", " + std::to_string(s_) + ")";
    }
};
class BaseListType : public DataType {
 public:
    using DataType::DataType;
    const std::shared_ptr<Field>& value_field() const { return children_[0]; }
    const std::shared_ptr<DataType>& value_type() const;
};
class ListType : public BaseListType {
 public:
    static constexpr Type::type type_id = Type::LIST;
    explicit ListType(std::shared_ptr<DataType> v);
    explicit ListType(std::shared_ptr<Field> f) : BaseListType(Type::LIST) {
        children_ = {std::move(f)};
    }
    std::string ToString(bool = false) const override;

 protected:
    explicit ListType(Type::type id) : BaseListType(id) {}
};
class MapType : public ListType {
 public:
    static constexpr Type::type type_id = Type::MAP;
    MapType(std::shared_ptr<DataType> k, std::shared_ptr<DataType> v, bool sorted = false);
    MapType(std::shared_ptr<DataType> k, std::shared_ptr<Field> v, bool sorted = false);
    MapType(std::shared_ptr<Field> k, std::shared_ptr<Field> v, bool sorted = false);
    const std::shared_ptr<Field>& key_field() const;
    const std::shared_ptr<Field>& item_field() const;
    const std::shared_ptr<DataType>& key_type() const;
    const std::shared_ptr<DataType>& item_type() const;
    bool keys_sorted() const { return sorted_; }
    std::string ToString(bool = false) const override;

 private:
    bool sorted_ = false;
};
class StructType : public DataType {
 public:
    static constexpr Type::type type_id = Type::STRUCT;
    explicit StructType(FieldVector fields) : DataType(Type::STRUCT) { children_ = std::move(fields); }
    std::string ToString(bool = false) const override;
    std::shared_ptr<Field> GetFieldByName(const std::string& name) const;
    int GetFieldIndex(const std::string& name) const;
    Result<std::shared_ptr<StructType>> AddField(int i, const std::shared_ptr<Field>& f) const {
        auto v = children_;
        v.insert(v.begin() + i, f);
        return std::make_shared<StructType>(v);
    }
};
class DictionaryType : public DataType {
 public:
    static constexpr Type::type type_id = Type::DICTIONARY;
    DictionaryType(std::shared_ptr<DataType> index, std::shared_ptr<DataType> value)
        : DataType(Type::DICTIONARY), index_(std::move(index)), value_(std::move(value)) {}
    const std::shared_ptr<DataType>& index_type() const { return index_; }
    const std::shared_ptr<DataType>& value_type() const { return value_; }
    std::string ToString(bool = false) const override { return "dictionary"; }

 private:
    std::shared_ptr<DataType> index_, value_;
};

class Field {
 public:
    Field(std::string name, std::shared_ptr<DataType> type, bool nullable = true,
          std::shared_ptr<const KeyValueMetadata> md = nullptr)
        : name_(std::move(name)), type_(std::move(type)), nullable_(nullable), md_(std::move(md)) {}
    const std::string& name() const { return name_; }
    const std::shared_ptr<DataType>& type() const { return type_; }
    bool nullable() const { return nullable_; }
    const std::shared_ptr<const KeyValueMetadata>& metadata() const { return md_; }
    bool HasMetadata() const { return md_ && md_->size() > 0; }
    std::shared_ptr<Field> WithMetadata(const std::shared_ptr<const KeyValueMetadata>& md) const {
        return std::make_shared<Field>(name_, type_, nullable_, md);
    }
    std::shared_ptr<Field> WithMergedMetadata(const std::shared_ptr<const KeyValueMetadata>& md) const {
        return std::make_shared<Field>(name_, type_, nullable_,
                                       md_ ? (md ? md_->Merge(*md) : md_->Copy()) : md);
    }
    std::shared_ptr<Field> RemoveMetadata() const {
        return std::make_shared<Field>(name_, type_, nullable_);
    }
    std::shared_ptr<Field> WithType(const std::shared_ptr<DataType>& t) const {
        return std::make_shared<Field>(name_, t, nullable_, md_);
    }
    std::shared_ptr<Field> WithName(const std::string& n) const {
        return std::make_shared<Field>(n, type_, nullable_, md_);
    }
    std::shared_ptr<Field> WithNullable(bool n) const {
        return std::make_shared<Field>(name_, type_, n, md_);
    }
    bool Equals(const Field& o, bool check_metadata = false) const;
    bool Equals(const std::shared_ptr<Field>& o, bool check_metadata = false) const {
        return o && Equals(*o, check_metadata);
    }
    std::string ToString(bool show_metadata = false) const;

 private:
    std::string name_;
    std::shared_ptr<DataType> type_;
    bool nullable_;
    std::shared_ptr<const KeyValueMetadata> md_;
};

class Schema {
 public:
    explicit Schema(FieldVector fields, std::shared_ptr<const KeyValueMetadata> md = nullptr)
        : fields_(std::move(fields)), md_(std::move(md)) {}
    int num_fields() const { return static_cast<int>(fields_.size()); }
    const std::shared_ptr<Field>& field(int i) const { return fields_[i]; }
    const FieldVector& fields() const { return fields_; }
    std::vector<std::string> field_names() const {
        std::vector<std::string> r;
        for (auto& f : fields_) r.push_back(f->name());
        return r;
    }
    std::shared_ptr<Field> GetFieldByName(const std::string& n) const {
        int i = GetFieldIndex(n);
        return i < 0 ? nullptr : fields_[i];
    }
    int GetFieldIndex(const std::string& n) const {
        int r = -1;
        for (size_t i = 0; i < fields_.size(); i++) {
            if (fields_[i]->name() == n) {
                if (r >= 0) return -1;
                r = static_cast<int>(i);
            }
        }
        return r;
    }
    std::vector<int> GetAllFieldIndices(const std::string& n) const {
        std::vector<int> r;
        for (size_t i = 0; i < fields_.size(); i++)
            if (fields_[i]->name() == n) r.push_back(static_cast<int>(i));
        return r;
    }
    const std::shared_ptr<const KeyValueMetadata>& metadata() const { return md_; }
    bool HasMetadata() const { return md_ && md_->size() > 0; }
    std::shared_ptr<Schema> WithMetadata(const std::shared_ptr<const KeyValueMetadata>& md) const {
        return std::make_shared<Schema>(fields_, md);
    }
    std::shared_ptr<Schema> RemoveMetadata() const { return std::make_shared<Schema>(fields_); }
    Result<std::shared_ptr<Schema>> AddField(int i, const std::shared_ptr<Field>& f) const {
        auto v = fields_;
        v.insert(v.begin() + i, f);
        return std::make_shared<Schema>(v, md_);
    }
    Result<std::shared_ptr<Schema>> RemoveField(int i) const {
        auto v = fields_;
        v.erase(v.begin() + i);
        return std::make_shared<Schema>(v, md_);
    }
    Result<std::shared_ptr<Schema>> SetField(int i, const std::shared_ptr<Field>& f) const {
        auto v = fields_;
        v[i] = f;
        return std::make_shared<Schema>(v, md_);
    }
    bool Equals(const Schema& o, bool check_metadata = false) const;
    bool Equals(const std::shared_ptr<Schema>& o, bool check_metadata = false) const {
        return o && Equals(*o, check_metadata);
    }
    std::string ToString(bool show_metadata = false) const;

 private:
    FieldVector fields_;
    std::shared_ptr<const KeyValueMetadata> md_;
};

const std::shared_ptr<DataType>& null();
const std::shared_ptr<DataType>& boolean();
const std::shared_ptr<DataType>& int8();
const std::shared_ptr<DataType>& int16();
const std::shared_ptr<DataType>& int32();
const std::shared_ptr<DataType>& int64();
const std::shared_ptr<DataType>& uint8();
const std::shared_ptr<DataType>& uint16();
const std::shared_ptr<DataType>& uint32();
const std::shared_ptr<DataType>& uint64();
const std::shared_ptr<DataType>& float32();
const std::shared_ptr<DataType>& float64();
const std::shared_ptr<DataType>& date32();
const std::shared_ptr<DataType>& utf8();
const std::shared_ptr<DataType>& binary();
const std::shared_ptr<DataType>& large_utf8();
const std::shared_ptr<DataType>& large_binary();
std::shared_ptr<DataType> timestamp(TimeUnit::type unit);
std::shared_ptr<DataType> timestamp(TimeUnit::type unit, const std::string& tz);
std::shared_ptr<DataType> decimal128(int32_t p, int32_t s);
std::shared_ptr<DataType> decimal(int32_t p, int32_t s);
std::shared_ptr<DataType> list(const std::shared_ptr<DataType>& t);
std::shared_ptr<DataType> list(const std::shared_ptr<Field>& f);
std::shared_ptr<DataType> map(std::shared_ptr<DataType> k, std::shared_ptr<DataType> v,
                              bool sorted = false);
std::shared_ptr<DataType> map(std::shared_ptr<DataType> k, std::shared_ptr<Field> v,
                              bool sorted = false);
std::shared_ptr<DataType> struct_(const FieldVector& fields);
std::shared_ptr<DataType> dictionary(const std::shared_ptr<DataType>& i,
                                     const std::shared_ptr<DataType>& v, bool ordered = false);
std::shared_ptr<Field> field(std::string name, std::shared_ptr<DataType> type, bool nullable = true,
                             std::shared_ptr<const KeyValueMetadata> md = nullptr);
std::shared_ptr<Field> field(std::string name, std::shared_ptr<DataType> type,
                             std::shared_ptr<const KeyValueMetadata> md);
std::shared_ptr<Schema> schema(FieldVector fields,
                               std::shared_ptr<const KeyValueMetadata> md = nullptr);
std::shared_ptr<KeyValueMetadata> key_value_metadata(std::vector<std::string> keys,
                                                     std::vector<std::string> values);
std::shared_ptr<KeyValueMetadata> key_value_metadata(
    const std::unordered_map<std::string, std::string>& m);

struct TypeHolder {
    const DataType* type = nullptr;
    std::shared_ptr<DataType> owned_type;
    TypeHolder() = default;
    TypeHolder(const DataType* t) : type(t) {}  // NOLINT
    TypeHolder(std::shared_ptr<DataType> t) : type(t.get()), owned_type(std::move(t)) {}  // NOLINT
    std::shared_ptr<DataType> GetSharedPtr() const {
        return owned_type ? owned_type : const_cast<DataType*>(type)->shared_from_this();
    }
};

// ---------------------------------------------------------------- decimal
class BasicDecimal128 {
 public:
    BasicDecimal128() : v_(0) {}
    BasicDecimal128(int64_t high, uint64_t low)
        : v_(static_cast<__int128_t>((static_cast<__uint128_t>(static_cast<uint64_t>(high)) << 64) |
                                     low)) {}
    template <typename T, typename = std::enable_if_t<std::is_integral_v<T>>>
    BasicDecimal128(T v) : v_(v) {}  // NOLINT
    explicit BasicDecimal128(const uint8_t* bytes) { memcpy(&v_, bytes, 16); }
    int64_t high_bits() const { return static_cast<int64_t>(v_ >> 64); }
    uint64_t low_bits() const { return static_cast<uint64_t>(v_); }
    static const BasicDecimal128& GetScaleMultiplier(int32_t scale);
    static BasicDecimal128 GetMaxSentinel() {
        return BasicDecimal128(std::numeric_limits<int64_t>::max(), ~0ull);
    }
    static BasicDecimal128 GetMinSentinel() {
        return BasicDecimal128(std::numeric_limits<int64_t>::min(), 0);
    }
    bool FitsInPrecision(int32_t p) const;
    BasicDecimal128 IncreaseScaleBy(int32_t n) const;
    BasicDecimal128 ReduceScaleBy(int32_t n, bool round = true) const;
    BasicDecimal128& operator/=(const BasicDecimal128& o) { v_ /= o.v_; return *this; }
    BasicDecimal128& operator*=(const BasicDecimal128& o) { v_ *= o.v_; return *this; }
    BasicDecimal128& operator+=(const BasicDecimal128& o) { v_ += o.v_; return *this; }
    BasicDecimal128& operator-=(const BasicDecimal128& o) { v_ -= o.v_; return *this; }
    BasicDecimal128& Negate() { v_ = -v_; return *this; }
    BasicDecimal128& Abs() { if (v_ < 0) v_ = -v_; return *this; }
    static BasicDecimal128 Abs(const BasicDecimal128& d) { auto r = d; r.Abs(); return r; }
    std::array<uint8_t, 16> ToBytes() const {
        std::array<uint8_t, 16> r;
        memcpy(r.data(), &v_, 16);
        return r;
    }
    void ToBytes(uint8_t* out) const { memcpy(out, &v_, 16); }
    __int128_t raw() const { return v_; }
    int64_t Sign() const { return v_ < 0 ? -1 : 1; }

 protected:
    __int128_t v_;
    friend bool operator==(const BasicDecimal128& a, const BasicDecimal128& b) { return a.v_ == b.v_; }
    friend bool operator!=(const BasicDecimal128& a, const BasicDecimal128& b) { return a.v_ != b.v_; }
    friend bool operator<(const BasicDecimal128& a, const BasicDecimal128& b) { return a.v_ < b.v_; }
    friend bool operator>(const BasicDecimal128& a, const BasicDecimal128& b) { return a.v_ > b.v_; }
    friend bool operator<=(const BasicDecimal128& a, const BasicDecimal128& b) { return a.v_ <= b.v_; }
    friend bool operator>=(const BasicDecimal128& a, const BasicDecimal128& b) { return a.v_ >= b.v_; }
    static BasicDecimal128 From(__int128_t v) {
        BasicDecimal128 r;
        r.v_ = v;
        return r;
    }
    friend BasicDecimal128 operator*(const BasicDecimal128& a, const BasicDecimal128& b) {
        return From(a.v_ * b.v_);
    }
    friend BasicDecimal128 operator/(const BasicDecimal128& a, const BasicDecimal128& b) {
        return From(a.v_ / b.v_);
    }
    friend BasicDecimal128 operator%(const BasicDecimal128& a, const BasicDecimal128& b) {
        return From(a.v_ % b.v_);
    }
    friend BasicDecimal128 operator+(const BasicDecimal128& a, const BasicDecimal128& b) {
        return From(a.v_ + b.v_);
    }
    friend BasicDecimal128 operator-(const BasicDecimal128& a, const BasicDecimal128& b) {
        return From(a.v_ - b.v_);
    }
    friend BasicDecimal128 operator-(const BasicDecimal128& a) { return From(-a.v_); }
};
class Decimal128 : public BasicDecimal128 {
 public:
    using BasicDecimal128::BasicDecimal128;
    Decimal128() = default;
    Decimal128(const BasicDecimal128& b) : BasicDecimal128(b) {}  // NOLINT
    std::string ToString(int32_t scale) const;
    std::string ToIntegerString() const;
    Result<Decimal128> Rescale(int32_t from, int32_t to) const;
    static Status FromString(std::string_view s, Decimal128* out, int32_t* precision,
                             int32_t* scale = nullptr);
    static Result<Decimal128> FromReal(double v, int32_t precision, int32_t scale);
    static Result<Decimal128> FromReal(float v, int32_t precision, int32_t scale);
    double ToDouble(int32_t scale) const;
    float ToFloat(int32_t scale) const { return static_cast<float>(ToDouble(scale)); }
    Status ToInteger(int64_t* out) const { *out = static_cast<int64_t>(v_); return Status::OK(); }
};

// ---------------------------------------------------------------- arrays
struct ArrayData {
    std::shared_ptr<DataType> type;
    int64_t length = 0;
    mutable int64_t null_count = 0;
    int64_t offset = 0;
    BufferVector buffers;
    std::vector<std::shared_ptr<ArrayData>> child_data;
    std::shared_ptr<ArrayData> dictionary;

    static std::shared_ptr<ArrayData> Make(std::shared_ptr<DataType> type, int64_t length,
                                           BufferVector buffers,
                                           int64_t null_count = kUnknownNullCount,
                                           int64_t offset = 0) {
        auto d = std::make_shared<ArrayData>();
        d->type = std::move(type);
        d->length = length;
        d->buffers = std::move(buffers);
        d->null_count = null_count;
        d->offset = offset;
        return d;
    }
    static std::shared_ptr<ArrayData> Make(std::shared_ptr<DataType> type, int64_t length,
                                           BufferVector buffers,
                                           std::vector<std::shared_ptr<ArrayData>> children,
                                           int64_t null_count = kUnknownNullCount,
                                           int64_t offset = 0) {
        auto d = Make(std::move(type), length, std::move(buffers), null_count, offset);
        d->child_data = std::move(children);
        return d;
    }
    std::shared_ptr<ArrayData> Copy() const { return std::make_shared<ArrayData>(*this); }
    std::shared_ptr<ArrayData> Slice(int64_t off, int64_t len) const {
        auto d = Copy();
        if (off > length) off = length;
        if (len > length - off) len = length - off;
        d->length = len;
        d->offset = offset + off;
        d->null_count = null_count == 0 ? 0 : kUnknownNullCount;
        return d;
    }
    int64_t GetNullCount() const {
        if (null_count == kUnknownNullCount) {
            if (type->id() == Type::NA) {
                null_count = length;
            } else if (buffers.empty() || !buffers[0]) {
                null_count = 0;
            } else {
                int64_t n = 0;
                for (int64_t i = 0; i < length; i++)
                    if (!bit_util::GetBit(buffers[0]->data(), offset + i)) n++;
                null_count = n;
            }
        }
        return null_count;
    }
    void SetNullCount(int64_t v) { null_count = v; }
};

class Array {
 public:
    virtual ~Array() = default;
    explicit Array(std::shared_ptr<ArrayData> d) : data_(std::move(d)) {
        nulls_ = (!data_->buffers.empty() && data_->buffers[0]) ? data_->buffers[0]->data() : nullptr;
    }
    bool IsNull(int64_t i) const {
        if (data_->type->id() == Type::NA) return true;
        return nulls_ && !bit_util::GetBit(nulls_, data_->offset + i);
    }
    bool IsValid(int64_t i) const { return !IsNull(i); }
    int64_t length() const { return data_->length; }
    int64_t offset() const { return data_->offset; }
    int64_t null_count() const { return data_->GetNullCount(); }
    const std::shared_ptr<DataType>& type() const { return data_->type; }
    Type::type type_id() const { return data_->type->id(); }
    const std::shared_ptr<ArrayData>& data() const { return data_; }
    std::shared_ptr<Buffer> null_bitmap() const {
        return data_->buffers.empty() ? nullptr : data_->buffers[0];
    }
    const uint8_t* null_bitmap_data() const { return nulls_; }
    int num_fields() const { return static_cast<int>(data_->child_data.size()); }
    std::shared_ptr<Array> Slice(int64_t off, int64_t len) const;
    std::shared_ptr<Array> Slice(int64_t off) const { return Slice(off, length() - off); }
    Result<std::shared_ptr<Array>> View(const std::shared_ptr<DataType>& t) const;
    Result<std::shared_ptr<Scalar>> GetScalar(int64_t i) const;
    bool Equals(const Array& o) const;
    bool Equals(const std::shared_ptr<Array>& o) const { return o && Equals(*o); }
    std::string ToString() const;
    Status Validate() const { return Status::OK(); }
    Status ValidateFull() const { return Status::OK(); }

 protected:
    std::shared_ptr<ArrayData> data_;
    const uint8_t* nulls_;
};
std::shared_ptr<Array> MakeArray(const std::shared_ptr<ArrayData>& data);

class NullArray : public Array {
 public:
    using TypeClass = NullType;
    using Array::Array;
};
class PrimitiveArray : public Array {
 public:
    explicit PrimitiveArray(std::shared_ptr<ArrayData> d) : Array(std::move(d)) {
        raw_ = data_->buffers[1] ? data_->buffers[1]->data() : nullptr;
    }
    const std::shared_ptr<Buffer>& values() const { return data_->buffers[1]; }

 protected:
    const uint8_t* raw_;
};
template <typename TYPE>
class NumericArray : public PrimitiveArray {
 public:
    using TypeClass = TYPE;
    using value_type = typename TYPE::c_type;
    using PrimitiveArray::PrimitiveArray;
    NumericArray(int64_t length, std::shared_ptr<Buffer> data,
                 std::shared_ptr<Buffer> nulls = nullptr, int64_t null_count = kUnknownNullCount,
                 int64_t offset = 0)
        : PrimitiveArray(ArrayData::Make(std::make_shared<TYPE>(), length,
                                         {std::move(nulls), std::move(data)}, null_count, offset)) {}
    const value_type* raw_values() const {
        return reinterpret_cast<const value_type*>(raw_) + data_->offset;
    }
    value_type Value(int64_t i) const { return raw_values()[i]; }
    value_type GetView(int64_t i) const { return raw_values()[i]; }
};
class BooleanArray : public PrimitiveArray {
 public:
    using TypeClass = BooleanType;
    using value_type = bool;
    using PrimitiveArray::PrimitiveArray;
    bool Value(int64_t i) const { return bit_util::GetBit(raw_, data_->offset + i); }
    bool GetView(int64_t i) const { return Value(i); }
};
using Int8Array = NumericArray<Int8Type>;
using Int16Array = NumericArray<Int16Type>;
using Int32Array = NumericArray<Int32Type>;
using Int64Array = NumericArray<Int64Type>;
using UInt8Array = NumericArray<UInt8Type>;
using UInt16Array = NumericArray<UInt16Type>;
using UInt32Array = NumericArray<UInt32Type>;
using UInt64Array = NumericArray<UInt64Type>;
using FloatArray = NumericArray<FloatType>;
using DoubleArray = NumericArray<DoubleType>;
using Date32Array = NumericArray<Date32Type>;
using TimestampArray = NumericArray<TimestampType>;

template <typename TYPE>
class BaseBinaryArray : public Array {
 public:
    using TypeClass = TYPE;
    using offset_type = typename TYPE::offset_type;
    explicit BaseBinaryArray(std::shared_ptr<ArrayData> d) : Array(std::move(d)) {
        off_ = data_->buffers[1] ? data_->buffers[1]->template data_as<offset_type>() : nullptr;
        val_ = data_->buffers[2] ? data_->buffers[2]->data() : nullptr;
    }
    std::string_view GetView(int64_t i) const {
        auto b = off_[data_->offset + i];
        auto e = off_[data_->offset + i + 1];
        return std::string_view(reinterpret_cast<const char*>(val_) + b, e - b);
    }
    std::string_view Value(int64_t i) const { return GetView(i); }
    std::string GetString(int64_t i) const { return std::string(GetView(i)); }
    const uint8_t* GetValue(int64_t i, offset_type* len) const {
        auto v = GetView(i);
        *len = static_cast<offset_type>(v.size());
        return reinterpret_cast<const uint8_t*>(v.data());
    }
    std::shared_ptr<Buffer> value_data() const { return data_->buffers[2]; }
    std::shared_ptr<Buffer> value_offsets() const { return data_->buffers[1]; }
    offset_type value_offset(int64_t i) const { return off_[data_->offset + i]; }
    offset_type value_length(int64_t i) const { return value_offset(i + 1) - value_offset(i); }
    const offset_type* raw_value_offsets() const { return off_ + data_->offset; }
    const uint8_t* raw_data() const { return val_; }
    offset_type total_values_length() const {
        return length() == 0 ? 0 : value_offset(length()) - value_offset(0);
    }

 protected:
    const offset_type* off_;
    const uint8_t* val_;
};
class BinaryArray : public BaseBinaryArray<BinaryType> {
 public:
    using TypeClass = BinaryType;
    using BaseBinaryArray::BaseBinaryArray;
};
class StringArray : public BinaryArray {
 public:
    using TypeClass = StringType;
    using BinaryArray::BinaryArray;
};
class LargeBinaryArray : public BaseBinaryArray<LargeBinaryType> {
 public:
    using TypeClass = LargeBinaryType;
    using BaseBinaryArray::BaseBinaryArray;
    LargeBinaryArray(int64_t length, std::shared_ptr<Buffer> offsets, std::shared_ptr<Buffer> data,
                     std::shared_ptr<Buffer> nulls = nullptr,
                     int64_t null_count = kUnknownNullCount, int64_t offset = 0)
        : BaseBinaryArray(ArrayData::Make(large_binary(), length,
                                          {std::move(nulls), std::move(offsets), std::move(data)},
                                          null_count, offset)) {}
};
class LargeStringArray : public LargeBinaryArray {
 public:
    using TypeClass = LargeStringType;
    using LargeBinaryArray::LargeBinaryArray;
};
class FixedSizeBinaryArray : public PrimitiveArray {
 public:
    using TypeClass = FixedSizeBinaryType;
    using PrimitiveArray::PrimitiveArray;
    const uint8_t* GetValue(int64_t i) const {
        return raw_ + (data_->offset + i) * data_->type->byte_width();
    }
    const uint8_t* Value(int64_t i) const { return GetValue(i); }
};
class Decimal128Array : public FixedSizeBinaryArray {
 public:
    using TypeClass = Decimal128Type;
    using FixedSizeBinaryArray::FixedSizeBinaryArray;
    std::string FormatValue(int64_t i) const {
        return Decimal128(GetValue(i)).ToString(
            static_cast<const Decimal128Type&>(*data_->type).scale());
    }
};
class ListArray : public Array {
 public:
    using TypeClass = ListType;
    using offset_type = int32_t;
    explicit ListArray(std::shared_ptr<ArrayData> d);
    ListArray(std::shared_ptr<DataType> type, int64_t length, std::shared_ptr<Buffer> offsets,
              std::shared_ptr<Array> values, std::shared_ptr<Buffer> nulls = nullptr,
              int64_t null_count = kUnknownNullCount, int64_t offset = 0);
    const std::shared_ptr<Array>& values() const { return values_; }
    std::shared_ptr<Buffer> value_offsets() const { return data_->buffers[1]; }
    int32_t value_offset(int64_t i) const { return off_[data_->offset + i]; }
    int32_t value_length(int64_t i) const { return value_offset(i + 1) - value_offset(i); }
    const int32_t* raw_value_offsets() const { return off_ + data_->offset; }
    std::shared_ptr<Array> value_slice(int64_t i) const {
        return values_->Slice(value_offset(i), value_length(i));
    }
    const ListType* list_type() const { return static_cast<const ListType*>(data_->type.get()); }

 protected:
    std::shared_ptr<Array> values_;
    const int32_t* off_;
};
class MapArray : public ListArray {
 public:
    using TypeClass = MapType;
    explicit MapArray(std::shared_ptr<ArrayData> d);
    MapArray(const std::shared_ptr<DataType>& type, int64_t length,
             const std::shared_ptr<Buffer>& offsets, const std::shared_ptr<Array>& keys,
             const std::shared_ptr<Array>& items, const std::shared_ptr<Buffer>& nulls = nullptr,
             int64_t null_count = kUnknownNullCount, int64_t offset = 0);
    const std::shared_ptr<Array>& keys() const { return keys_; }
    const std::shared_ptr<Array>& items() const { return items_; }
    const MapType* map_type() const { return static_cast<const MapType*>(data_->type.get()); }

 private:
    void Init();
    std::shared_ptr<Array> keys_, items_;
};
class StructArray : public Array {
 public:
    using TypeClass = StructType;
    explicit StructArray(std::shared_ptr<ArrayData> d) : Array(std::move(d)) {}
    StructArray(const std::shared_ptr<DataType>& type, int64_t length, const ArrayVector& children,
                std::shared_ptr<Buffer> nulls = nullptr, int64_t null_count = kUnknownNullCount,
                int64_t offset = 0);
    static Result<std::shared_ptr<StructArray>> Make(const ArrayVector& children,
                                                     const std::vector<std::string>& names,
                                                     std::shared_ptr<Buffer> nulls = nullptr,
                                                     int64_t null_count = kUnknownNullCount,
                                                     int64_t offset = 0);
    static Result<std::shared_ptr<StructArray>> Make(const ArrayVector& children,
                                                     const FieldVector& fields,
                                                     std::shared_ptr<Buffer> nulls = nullptr,
                                                     int64_t null_count = kUnknownNullCount,
                                                     int64_t offset = 0);
    const StructType* struct_type() const {
        return static_cast<const StructType*>(data_->type.get());
    }
    const std::shared_ptr<Array>& field(int i) const { return fields()[i]; }
    const ArrayVector& fields() const;
    std::shared_ptr<Array> GetFieldByName(const std::string& name) const;
    Result<ArrayVector> Flatten(MemoryPool* = nullptr) const { return fields(); }

 private:
    mutable ArrayVector boxed_;
    mutable bool boxed_done_ = false;
};
class DictionaryArray : public Array {
 public:
    using TypeClass = DictionaryType;
    explicit DictionaryArray(std::shared_ptr<ArrayData> d);
    DictionaryArray(const std::shared_ptr<DataType>& type, const std::shared_ptr<Array>& indices,
                    const std::shared_ptr<Array>& dict);
    const std::shared_ptr<Array>& indices() const { return indices_; }
    const std::shared_ptr<Array>& dictionary() const { return dict_; }

 private:
    std::shared_ptr<Array> indices_, dict_;
};

// ---------------------------------------------------------------- scalars
struct Scalar {
    virtual ~Scalar() = default;
    std::shared_ptr<DataType> type;
    bool is_valid = true;
    virtual std::string ToString() const { return ""; }

 protected:
    Scalar(std::shared_ptr<DataType> t, bool v) : type(std::move(t)), is_valid(v) {}
};
struct PrimitiveScalarBase : public Scalar {
    using Scalar::Scalar;
    PrimitiveScalarBase(std::shared_ptr<DataType> t, bool v) : Scalar(std::move(t), v) {}
    virtual const void* data() const = 0;
    virtual std::string_view view() const = 0;
};
template <typename C>
std::string MiniScalarToString(C v) {
    if constexpr (std::is_floating_point_v<C>) {
        std::ostringstream ss;
        ss.precision(std::is_same_v<C, float> ? 9 : 17);
        ss << v;
        return ss.str();
    } else if constexpr (std::is_same_v<C, bool>) {
        return v ? "true" : "false";
    } else {
        return std::to_string(v);
    }
}
template <typename TYPE, typename C = typename TYPE::c_type>
struct PrimitiveScalar : public PrimitiveScalarBase {
    using TypeClass = TYPE;
    using ValueType = C;
    C value{};
    explicit PrimitiveScalar(C v) : PrimitiveScalarBase(std::make_shared<TYPE>(), true), value(v) {}
    PrimitiveScalar(C v, std::shared_ptr<DataType> t)
        : PrimitiveScalarBase(std::move(t), true), value(v) {}
    explicit PrimitiveScalar(std::shared_ptr<DataType> t) : PrimitiveScalarBase(std::move(t), false) {}
    const void* data() const override { return &value; }
    std::string_view view() const override {
        return std::string_view(reinterpret_cast<const char*>(&value), sizeof(C));
    }
    std::string ToString() const override { return MiniScalarToString(value); }
};
struct BooleanScalar : public PrimitiveScalar<BooleanType> {
    using PrimitiveScalar::PrimitiveScalar;
};
template <typename T>
struct NumericScalar : public PrimitiveScalar<T> {
    using PrimitiveScalar<T>::PrimitiveScalar;
};
#define MINI_SCALAR(N)                                   \
    struct N##Scalar : public NumericScalar<N##Type> {   \
        using NumericScalar<N##Type>::NumericScalar;     \
    };
MINI_SCALAR(Int8)
MINI_SCALAR(Int16)
MINI_SCALAR(Int32)
MINI_SCALAR(Int64)
MINI_SCALAR(UInt8)
MINI_SCALAR(UInt16)
MINI_SCALAR(UInt32)
MINI_SCALAR(UInt64)
MINI_SCALAR(Float)
MINI_SCALAR(Double)
MINI_SCALAR(Date32)
#undef MINI_SCALAR
struct TimestampScalar : public PrimitiveScalar<TimestampType> {
    using PrimitiveScalar::PrimitiveScalar;
    TimestampScalar(int64_t v, TimeUnit::type unit, std::string tz = "")
        : PrimitiveScalar(v, timestamp(unit, tz)) {}
};
struct BaseBinaryScalar : public PrimitiveScalarBase {
    std::shared_ptr<Buffer> value;
    BaseBinaryScalar(std::shared_ptr<Buffer> v, std::shared_ptr<DataType> t)
        : PrimitiveScalarBase(std::move(t), v != nullptr), value(std::move(v)) {}
    const void* data() const override { return value ? value->data() : nullptr; }
    std::string_view view() const override {
        return value ? std::string_view(*value) : std::string_view();
    }
    std::string ToString() const override { return value ? value->ToString() : "null"; }
};
struct BinaryScalar : public BaseBinaryScalar {
    using ValueType = std::shared_ptr<Buffer>;
    using BaseBinaryScalar::BaseBinaryScalar;
    explicit BinaryScalar(std::string s) : BaseBinaryScalar(Buffer::FromString(std::move(s)), binary()) {}
    explicit BinaryScalar(std::shared_ptr<Buffer> b) : BaseBinaryScalar(std::move(b), binary()) {}
};
struct StringScalar : public BinaryScalar {
    using BinaryScalar::BinaryScalar;
    explicit StringScalar(std::string s) : BinaryScalar(Buffer::FromString(std::move(s)), utf8()) {}
    explicit StringScalar(std::shared_ptr<Buffer> b) : BinaryScalar(std::move(b), utf8()) {}
};
struct Decimal128Scalar : public PrimitiveScalarBase {
    using TypeClass = Decimal128Type;
    using ValueType = Decimal128;
    Decimal128 value;
    Decimal128Scalar(Decimal128 v, std::shared_ptr<DataType> t)
        : PrimitiveScalarBase(std::move(t), true), value(v) {}
    const void* data() const override { return &value; }
    std::string_view view() const override {
        return std::string_view(reinterpret_cast<const char*>(&value), 16);
    }
    std::string ToString() const override {
        return value.ToString(static_cast<const Decimal128Type&>(*type).scale());
    }
};
template <typename V>
std::shared_ptr<Scalar> MakeScalar(std::shared_ptr<DataType> t, V v);

Result<std::shared_ptr<Array>> MakeArrayFromScalar(const Scalar& scalar, int64_t length,
                                                   MemoryPool* pool = nullptr);
Result<std::shared_ptr<Array>> MakeArrayOfNull(const std::shared_ptr<DataType>& type,
                                               int64_t length, MemoryPool* pool = nullptr);
Result<std::shared_ptr<Array>> MakeEmptyArray(std::shared_ptr<DataType> type,
                                              MemoryPool* pool = nullptr);
Result<std::shared_ptr<Array>> Concatenate(const ArrayVector& arrays, MemoryPool* pool = nullptr);

class ChunkedArray;
class RecordBatch;
class Table;

class Datum {
 public:
    Datum() = default;
    Datum(std::shared_ptr<Scalar> s) : scalar_(std::move(s)) {}  // NOLINT
    Datum(std::shared_ptr<Array> a) : array_(std::move(a)) {}    // NOLINT
    Datum(const Array& a) : array_(MakeArray(a.data())) {}       // NOLINT
    template <typename T, typename = std::enable_if_t<std::is_base_of_v<Array, T>>>
    Datum(std::shared_ptr<T> a) : array_(std::move(a)) {}  // NOLINT
    template <typename T, typename = std::enable_if_t<std::is_base_of_v<Scalar, T>>, int = 0>
    Datum(std::shared_ptr<T> a) : scalar_(std::move(a)) {}  // NOLINT
    const std::shared_ptr<Scalar>& scalar() const { return scalar_; }
    std::shared_ptr<Array> make_array() const { return array_; }
    const std::shared_ptr<ArrayData>& array() const { return array_->data(); }
    bool is_array() const { return array_ != nullptr; }
    bool is_scalar() const { return scalar_ != nullptr; }

 private:
    std::shared_ptr<Scalar> scalar_;
    std::shared_ptr<Array> array_;
};

// ---------------------------------------------------------------- builders
template <typename T>
class TypedBufferBuilder {
 public:
    explicit TypedBufferBuilder(MemoryPool* pool = nullptr) : pool_(pool) {}
    Status Reserve(int64_t n) {
        Ensure();
        return buf_->Reserve((len_ + n) * static_cast<int64_t>(sizeof(T)));
    }
    Status Append(T v) { return Append(&v, 1); }
    Status Append(const T* v, int64_t n) {
        Ensure();
        int64_t old = len_ * static_cast<int64_t>(sizeof(T));
        int64_t add = n * static_cast<int64_t>(sizeof(T));
        ARROW_RETURN_NOT_OK(buf_->Resize(old + add, false));
        if (add) memcpy(buf_->mutable_data() + old, v, add);
        len_ += n;
        return Status::OK();
    }
    Status Append(int64_t n, T v) {
        for (int64_t i = 0; i < n; i++) ARROW_RETURN_NOT_OK(Append(v));
        return Status::OK();
    }
    void UnsafeAppend(T v) { (void)Append(v); }
    Status Finish(std::shared_ptr<Buffer>* out) {
        Ensure();
        *out = std::move(buf_);
        buf_.reset();
        len_ = 0;
        return Status::OK();
    }
    Result<std::shared_ptr<Buffer>> Finish() {
        std::shared_ptr<Buffer> r;
        ARROW_RETURN_NOT_OK(Finish(&r));
        return r;
    }
    void Reset() { buf_.reset(); len_ = 0; }
    int64_t length() const { return len_; }
    const T* data() const { return buf_ ? buf_->template data_as<T>() : nullptr; }
    T* mutable_data() { return buf_ ? reinterpret_cast<T*>(buf_->mutable_data()) : nullptr; }

 private:
    void Ensure() {
        if (!buf_) buf_ = std::make_shared<ResizableBuffer>(pool_);
    }
    MemoryPool* pool_;
    std::shared_ptr<ResizableBuffer> buf_;
    int64_t len_ = 0;
};

class ArrayBuilder {
 public:
    explicit ArrayBuilder(MemoryPool* pool) : pool_(pool), nulls_(pool) {}
    virtual ~ArrayBuilder() = default;
    virtual std::shared_ptr<DataType> type() const = 0;
    int64_t length() const { return length_; }
    int64_t null_count() const { return null_count_; }
    int64_t capacity() const { return length_; }
    ArrayBuilder* child(int i) { return children_[i].get(); }
    const std::shared_ptr<ArrayBuilder>& child_builder(int i) const { return children_[i]; }
    int num_children() const { return static_cast<int>(children_.size()); }
    virtual Status Reserve(int64_t) { return Status::OK(); }
    virtual Status Resize(int64_t) { return Status::OK(); }
    virtual void Reset() {
        length_ = 0;
        null_count_ = 0;
        nulls_.Reset();
        for (auto& c : children_) c->Reset();
    }
    virtual Status AppendNull() = 0;
    virtual Status AppendNulls(int64_t n) {
        for (int64_t i = 0; i < n; i++) ARROW_RETURN_NOT_OK(AppendNull());
        return Status::OK();
    }
    virtual Status AppendEmptyValue() = 0;
    virtual Status FinishInternal(std::shared_ptr<ArrayData>* out) = 0;
    // appends one value of `a` (any type) at index i
    virtual Status AppendFrom(const Array& a, int64_t i) = 0;
    Status AppendArraySlice(const Array& a, int64_t off, int64_t len) {
        for (int64_t i = 0; i < len; i++) ARROW_RETURN_NOT_OK(AppendFrom(a, off + i));
        return Status::OK();
    }
    Status Finish(std::shared_ptr<Array>* out) {
        std::shared_ptr<ArrayData> d;
        ARROW_RETURN_NOT_OK(FinishInternal(&d));
        *out = MakeArray(d);
        Reset();
        return Status::OK();
    }
    Result<std::shared_ptr<Array>> Finish() {
        std::shared_ptr<Array> a;
        ARROW_RETURN_NOT_OK(Finish(&a));
        return a;
    }

 protected:
    Status PushValid(bool v) {
        if ((length_ & 7) == 0) ARROW_RETURN_NOT_OK(nulls_.Append(uint8_t(0)));
        if (v) bit_util::SetBit(nulls_.mutable_data(), length_);
        else null_count_++;
        length_++;
        return Status::OK();
    }
    Status FinishNulls(std::shared_ptr<Buffer>* out) {
        if (null_count_ == 0) {
            *out = nullptr;
            nulls_.Reset();
            return Status::OK();
        }
        return nulls_.Finish(out);
    }
    MemoryPool* pool_;
    TypedBufferBuilder<uint8_t> nulls_;
    int64_t length_ = 0, null_count_ = 0;
    std::vector<std::shared_ptr<ArrayBuilder>> children_;
};

class NullBuilder : public ArrayBuilder {
 public:
    explicit NullBuilder(MemoryPool* pool = nullptr) : ArrayBuilder(pool) {}
    std::shared_ptr<DataType> type() const override { return null(); }
    Status AppendNull() override { length_++; null_count_++; return Status::OK(); }
    Status AppendEmptyValue() override { return AppendNull(); }
    Status AppendFrom(const Array&, int64_t) override { return AppendNull(); }
    Status FinishInternal(std::shared_ptr<ArrayData>* out) override {
        *out = ArrayData::Make(null(), length_, {nullptr}, length_);
        return Status::OK();
    }
};
template <typename TYPE>
class NumericBuilder : public ArrayBuilder {
 public:
    using TypeClass = TYPE;
    using value_type = typename TYPE::c_type;
    explicit NumericBuilder(MemoryPool* pool = nullptr)
        : ArrayBuilder(pool), type_(std::make_shared<TYPE>()), vals_(pool) {}
    NumericBuilder(std::shared_ptr<DataType> t, MemoryPool* pool = nullptr)
        : ArrayBuilder(pool), type_(std::move(t)), vals_(pool) {}
    std::shared_ptr<DataType> type() const override { return type_; }
    Status Reserve(int64_t n) override { return vals_.Reserve(n); }
    void Reset() override { ArrayBuilder::Reset(); vals_.Reset(); }
    Status Append(value_type v) { ARROW_RETURN_NOT_OK(vals_.Append(v)); return PushValid(true); }
    void UnsafeAppend(value_type v) { (void)Append(v); }
    Status AppendNull() override { ARROW_RETURN_NOT_OK(vals_.Append(value_type{})); return PushValid(false); }
    Status AppendEmptyValue() override { return Append(value_type{}); }
    Status AppendValues(const value_type* v, int64_t n, const uint8_t* valid = nullptr) {
        for (int64_t i = 0; i < n; i++)
            ARROW_RETURN_NOT_OK((valid && !valid[i]) ? AppendNull() : Append(v[i]));
        return Status::OK();
    }
    Status AppendValues(const std::vector<value_type>& v) { return AppendValues(v.data(), v.size()); }
    Status AppendValues(const std::vector<value_type>& v, const std::vector<bool>& valid) {
        for (size_t i = 0; i < v.size(); i++) ARROW_RETURN_NOT_OK(valid[i] ? Append(v[i]) : AppendNull());
        return Status::OK();
    }
    Status AppendFrom(const Array& a, int64_t i) override {
        if (a.IsNull(i)) return AppendNull();
        return Append(static_cast<const NumericArray<TYPE>&>(a).Value(i));
    }
    value_type GetValue(int64_t i) const { return vals_.data()[i]; }
    Status FinishInternal(std::shared_ptr<ArrayData>* out) override {
        std::shared_ptr<Buffer> n, v;
        int64_t len = length_, nc = null_count_;
        ARROW_RETURN_NOT_OK(FinishNulls(&n));
        ARROW_RETURN_NOT_OK(vals_.Finish(&v));
        *out = ArrayData::Make(type_, len, {n, v}, nc);
        return Status::OK();
    }

 private:
    std::shared_ptr<DataType> type_;
    TypedBufferBuilder<value_type> vals_;
};
using Int8Builder = NumericBuilder<Int8Type>;
using Int16Builder = NumericBuilder<Int16Type>;
using Int32Builder = NumericBuilder<Int32Type>;
using Int64Builder = NumericBuilder<Int64Type>;
using UInt8Builder = NumericBuilder<UInt8Type>;
using UInt16Builder = NumericBuilder<UInt16Type>;
using UInt32Builder = NumericBuilder<UInt32Type>;
using UInt64Builder = NumericBuilder<UInt64Type>;
using FloatBuilder = NumericBuilder<FloatType>;
using DoubleBuilder = NumericBuilder<DoubleType>;
using Date32Builder = NumericBuilder<Date32Type>;
using TimestampBuilder = NumericBuilder<TimestampType>;

class BooleanBuilder : public ArrayBuilder {
 public:
    using value_type = bool;
    explicit BooleanBuilder(MemoryPool* pool = nullptr) : ArrayBuilder(pool), bits_(pool) {}
    BooleanBuilder(const std::shared_ptr<DataType>&, MemoryPool* pool = nullptr) : BooleanBuilder(pool) {}
    std::shared_ptr<DataType> type() const override { return boolean(); }
    void Reset() override { ArrayBuilder::Reset(); bits_.Reset(); }
    Status Append(bool v) { ARROW_RETURN_NOT_OK(PushBit(v)); return PushValid(true); }
    Status AppendNull() override { ARROW_RETURN_NOT_OK(PushBit(false)); return PushValid(false); }
    Status AppendEmptyValue() override { return Append(false); }
    Status AppendFrom(const Array& a, int64_t i) override {
        if (a.IsNull(i)) return AppendNull();
        return Append(static_cast<const BooleanArray&>(a).Value(i));
    }
    Status FinishInternal(std::shared_ptr<ArrayData>* out) override {
        std::shared_ptr<Buffer> n, v;
        int64_t len = length_, nc = null_count_;
        ARROW_RETURN_NOT_OK(FinishNulls(&n));
        ARROW_RETURN_NOT_OK(bits_.Finish(&v));
        *out = ArrayData::Make(boolean(), len, {n, v}, nc);
        return Status::OK();
    }

 private:
    Status PushBit(bool v) {
        if ((length_ & 7) == 0) ARROW_RETURN_NOT_OK(bits_.Append(uint8_t(0)));
        if (v) bit_util::SetBit(bits_.mutable_data(), length_);
        return Status::OK();
    }
    TypedBufferBuilder<uint8_t> bits_;
};

template <typename TYPE, typename ARR>
class BaseBinaryBuilder : public ArrayBuilder {
 public:
    using offset_type = typename TYPE::offset_type;
    BaseBinaryBuilder(std::shared_ptr<DataType> t, MemoryPool* pool)
        : ArrayBuilder(pool), type_(std::move(t)), offs_(pool), data_(pool) {}
    std::shared_ptr<DataType> type() const override { return type_; }
    void Reset() override { ArrayBuilder::Reset(); offs_.Reset(); data_.Reset(); }
    Status Reserve(int64_t n) override { return offs_.Reserve(n + 1); }
    Status ReserveData(int64_t n) { return data_.Reserve(n); }
    Status Append(const uint8_t* v, offset_type n) {
        ARROW_RETURN_NOT_OK(offs_.Append(static_cast<offset_type>(data_.length())));
        ARROW_RETURN_NOT_OK(data_.Append(v, n));
        return PushValid(true);
    }
    Status Append(const char* v, offset_type n) {
        return Append(reinterpret_cast<const uint8_t*>(v), n);
    }
    Status Append(std::string_view v) { return Append(v.data(), static_cast<offset_type>(v.size())); }
    Status AppendNull() override {
        ARROW_RETURN_NOT_OK(offs_.Append(static_cast<offset_type>(data_.length())));
        return PushValid(false);
    }
    Status AppendEmptyValue() override { return Append(std::string_view()); }
    Status AppendValues(const std::vector<std::string>& v) {
        for (auto& s : v) ARROW_RETURN_NOT_OK(Append(std::string_view(s)));
        return Status::OK();
    }
    Status AppendFrom(const Array& a, int64_t i) override {
        if (a.IsNull(i)) return AppendNull();
        return Append(static_cast<const ARR&>(a).GetView(i));
    }
    int64_t value_data_length() const { return data_.length(); }
    Status FinishInternal(std::shared_ptr<ArrayData>* out) override {
        std::shared_ptr<Buffer> n, o, v;
        int64_t len = length_, nc = null_count_;
        ARROW_RETURN_NOT_OK(FinishNulls(&n));
        ARROW_RETURN_NOT_OK(offs_.Append(static_cast<offset_type>(data_.length())));
        ARROW_RETURN_NOT_OK(offs_.Finish(&o));
        ARROW_RETURN_NOT_OK(data_.Finish(&v));
        *out = ArrayData::Make(type_, len, {n, o, v}, nc);
        return Status::OK();
    }

 private:
    std::shared_ptr<DataType> type_;
    TypedBufferBuilder<offset_type> offs_;
    TypedBufferBuilder<uint8_t> data_;
};
class BinaryBuilder : public BaseBinaryBuilder<BinaryType, BinaryArray> {
 public:
    explicit BinaryBuilder(MemoryPool* pool = nullptr) : BaseBinaryBuilder(binary(), pool) {}
    BinaryBuilder(std::shared_ptr<DataType> t, MemoryPool* pool) : BaseBinaryBuilder(std::move(t), pool) {}
};
class StringBuilder : public BinaryBuilder {
 public:
    explicit StringBuilder(MemoryPool* pool = nullptr) : BinaryBuilder(utf8(), pool) {}
    StringBuilder(std::shared_ptr<DataType> t, MemoryPool* pool) : BinaryBuilder(std::move(t), pool) {}
};
class LargeBinaryBuilder : public BaseBinaryBuilder<LargeBinaryType, LargeBinaryArray> {
 public:
    explicit LargeBinaryBuilder(MemoryPool* pool = nullptr) : BaseBinaryBuilder(large_binary(), pool) {}
    LargeBinaryBuilder(std::shared_ptr<DataType> t, MemoryPool* pool = nullptr)
        : BaseBinaryBuilder(std::move(t), pool) {}
};
class LargeStringBuilder : public LargeBinaryBuilder {
 public:
    explicit LargeStringBuilder(MemoryPool* pool = nullptr) : LargeBinaryBuilder(large_utf8(), pool) {}
};
class Decimal128Builder : public ArrayBuilder {
 public:
    Decimal128Builder(std::shared_ptr<DataType> t, MemoryPool* pool = nullptr)
        : ArrayBuilder(pool), type_(std::move(t)), vals_(pool) {}
    std::shared_ptr<DataType> type() const override { return type_; }
    void Reset() override { ArrayBuilder::Reset(); vals_.Reset(); }
    Status Append(Decimal128 v) { ARROW_RETURN_NOT_OK(vals_.Append(v.raw())); return PushValid(true); }
    Status AppendNull() override { ARROW_RETURN_NOT_OK(vals_.Append(__int128_t(0))); return PushValid(false); }
    Status AppendEmptyValue() override { return Append(Decimal128()); }
    Status AppendFrom(const Array& a, int64_t i) override {
        if (a.IsNull(i)) return AppendNull();
        return Append(Decimal128(static_cast<const Decimal128Array&>(a).GetValue(i)));
    }
    Status FinishInternal(std::shared_ptr<ArrayData>* out) override {
        std::shared_ptr<Buffer> n, v;
        int64_t len = length_, nc = null_count_;
        ARROW_RETURN_NOT_OK(FinishNulls(&n));
        ARROW_RETURN_NOT_OK(vals_.Finish(&v));
        *out = ArrayData::Make(type_, len, {n, v}, nc);
        return Status::OK();
    }

 private:
    std::shared_ptr<DataType> type_;
    TypedBufferBuilder<__int128_t> vals_;
};
class ListBuilder : public ArrayBuilder {
 public:
    ListBuilder(MemoryPool* pool, std::shared_ptr<ArrayBuilder> v, std::shared_ptr<DataType> t = nullptr)
        : ArrayBuilder(pool), type_(t ? t : list(v->type())), offs_(pool) {
        children_ = {std::move(v)};
    }
    std::shared_ptr<DataType> type() const override { return type_; }
    void Reset() override { ArrayBuilder::Reset(); offs_.Reset(); }
    ArrayBuilder* value_builder() const { return children_[0].get(); }
    Status Append(bool valid = true) {
        ARROW_RETURN_NOT_OK(offs_.Append(static_cast<int32_t>(children_[0]->length())));
        return PushValid(valid);
    }
    Status AppendNull() override { return Append(false); }
    Status AppendEmptyValue() override { return Append(true); }
    Status AppendFrom(const Array& a, int64_t i) override {
        if (a.IsNull(i)) return AppendNull();
        auto& l = static_cast<const ListArray&>(a);
        ARROW_RETURN_NOT_OK(Append());
        return children_[0]->AppendArraySlice(*l.values(), l.value_offset(i), l.value_length(i));
    }
    Status FinishInternal(std::shared_ptr<ArrayData>* out) override {
        std::shared_ptr<Buffer> n, o;
        std::shared_ptr<ArrayData> c;
        int64_t len = length_, nc = null_count_;
        ARROW_RETURN_NOT_OK(offs_.Append(static_cast<int32_t>(children_[0]->length())));
        ARROW_RETURN_NOT_OK(FinishNulls(&n));
        ARROW_RETURN_NOT_OK(offs_.Finish(&o));
        ARROW_RETURN_NOT_OK(children_[0]->FinishInternal(&c));
        children_[0]->Reset();
        *out = ArrayData::Make(type_, len, {n, o}, {c}, nc);
        return Status::OK();
    }

 private:
    std::shared_ptr<DataType> type_;
    TypedBufferBuilder<int32_t> offs_;
};
class StructBuilder : public ArrayBuilder {
 public:
    StructBuilder(const std::shared_ptr<DataType>& t, MemoryPool* pool,
                  std::vector<std::shared_ptr<ArrayBuilder>> fields)
        : ArrayBuilder(pool), type_(t) {
        children_ = std::move(fields);
    }
    std::shared_ptr<DataType> type() const override { return type_; }
    int num_fields() const { return num_children(); }
    ArrayBuilder* field_builder(int i) const { return children_[i].get(); }
    Status Append(bool valid = true) { return PushValid(valid); }
    Status AppendNull() override {
        for (auto& c : children_) ARROW_RETURN_NOT_OK(c->AppendEmptyValue());
        return PushValid(false);
    }
    Status AppendEmptyValue() override {
        for (auto& c : children_) ARROW_RETURN_NOT_OK(c->AppendEmptyValue());
        return PushValid(true);
    }
    Status AppendValues(int64_t n, const uint8_t* valid) {
        for (int64_t i = 0; i < n; i++) ARROW_RETURN_NOT_OK(PushValid(!valid || valid[i]));
        return Status::OK();
    }
    Status AppendFrom(const Array& a, int64_t i) override {
        if (a.IsNull(i)) return AppendNull();
        auto& s = static_cast<const StructArray&>(a);
        for (size_t c = 0; c < children_.size(); c++)
            ARROW_RETURN_NOT_OK(children_[c]->AppendFrom(*s.field(static_cast<int>(c)), i));
        return PushValid(true);
    }
    Status FinishInternal(std::shared_ptr<ArrayData>* out) override {
        std::shared_ptr<Buffer> n;
        int64_t len = length_, nc = null_count_;
        ARROW_RETURN_NOT_OK(FinishNulls(&n));
        std::vector<std::shared_ptr<ArrayData>> cs;
        for (auto& c : children_) {
            std::shared_ptr<ArrayData> d;
            ARROW_RETURN_NOT_OK(c->FinishInternal(&d));
            c->Reset();
            cs.push_back(d);
        }
        *out = ArrayData::Make(type_, len, {n}, cs, nc);
        return Status::OK();
    }

 private:
    std::shared_ptr<DataType> type_;
};
class MapBuilder : public ArrayBuilder {
 public:
    MapBuilder(MemoryPool* pool, const std::shared_ptr<ArrayBuilder>& key,
               const std::shared_ptr<ArrayBuilder>& item, const std::shared_ptr<DataType>& t)
        : ArrayBuilder(pool), type_(t), offs_(pool) {
        children_ = {key, item};
    }
    std::shared_ptr<DataType> type() const override { return type_; }
    void Reset() override { ArrayBuilder::Reset(); offs_.Reset(); }
    ArrayBuilder* key_builder() const { return children_[0].get(); }
    ArrayBuilder* item_builder() const { return children_[1].get(); }
    Status Append() { return Push(true); }
    Status AppendNull() override { return Push(false); }
    Status AppendEmptyValue() override { return Push(true); }
    Status AppendFrom(const Array& a, int64_t i) override {
        if (a.IsNull(i)) return AppendNull();
        auto& m = static_cast<const MapArray&>(a);
        ARROW_RETURN_NOT_OK(Append());
        ARROW_RETURN_NOT_OK(children_[0]->AppendArraySlice(*m.keys(), m.value_offset(i), m.value_length(i)));
        return children_[1]->AppendArraySlice(*m.items(), m.value_offset(i), m.value_length(i));
    }
    Status FinishInternal(std::shared_ptr<ArrayData>* out) override;

 private:
    Status Push(bool valid) {
        ARROW_RETURN_NOT_OK(offs_.Append(static_cast<int32_t>(children_[0]->length())));
        return PushValid(valid);
    }
    std::shared_ptr<DataType> type_;
    TypedBufferBuilder<int32_t> offs_;
};
template <typename T>
class DictionaryBuilder;

Status MakeBuilder(MemoryPool* pool, const std::shared_ptr<DataType>& type,
                   std::unique_ptr<ArrayBuilder>* out);
Result<std::unique_ptr<ArrayBuilder>> MakeBuilder(const std::shared_ptr<DataType>& type,
                                                  MemoryPool* pool = nullptr);

// ---------------------------------------------------------------- traits
template <typename T>
struct TypeTraits {};
#define MINI_TRAIT(N)                       \
    template <>                             \
    struct TypeTraits<N##Type> {            \
        using ArrayType = N##Array;         \
        using BuilderType = N##Builder;     \
        using ScalarType = N##Scalar;       \
        using CType = N##Type::c_type;      \
    };
MINI_TRAIT(Boolean)
MINI_TRAIT(Int8)
MINI_TRAIT(Int16)
MINI_TRAIT(Int32)
MINI_TRAIT(Int64)
MINI_TRAIT(UInt8)
MINI_TRAIT(UInt16)
MINI_TRAIT(UInt32)
MINI_TRAIT(UInt64)
MINI_TRAIT(Float)
MINI_TRAIT(Double)
MINI_TRAIT(Date32)
MINI_TRAIT(Timestamp)
#undef MINI_TRAIT
template <>
struct TypeTraits<StringType> {
    using ArrayType = StringArray;
    using BuilderType = StringBuilder;
    using ScalarType = StringScalar;
};
template <>
struct TypeTraits<BinaryType> {
    using ArrayType = BinaryArray;
    using BuilderType = BinaryBuilder;
    using ScalarType = BinaryScalar;
};
template <>
struct TypeTraits<Decimal128Type> {
    using ArrayType = Decimal128Array;
    using BuilderType = Decimal128Builder;
    using ScalarType = Decimal128Scalar;
};

// ---------------------------------------------------------------- C data interface
Status ExportType(const DataType& type, struct ArrowSchema* out);
Status ExportField(const Field& field, struct ArrowSchema* out);
Status ExportSchema(const Schema& schema, struct ArrowSchema* out);
Status ExportArray(const Array& array, struct ArrowArray* out, struct ArrowSchema* out_schema = nullptr);
Result<std::shared_ptr<DataType>> ImportType(struct ArrowSchema* schema);
Result<std::shared_ptr<Field>> ImportField(struct ArrowSchema* schema);
Result<std::shared_ptr<Schema>> ImportSchema(struct ArrowSchema* schema);
Result<std::shared_ptr<Array>> ImportArray(struct ArrowArray* array, std::shared_ptr<DataType> type);
Result<std::shared_ptr<Array>> ImportArray(struct ArrowArray* array, struct ArrowSchema* schema);

// ---------------------------------------------------------------- compute
namespace compute {
class ExecContext {
 public:
    explicit ExecContext(MemoryPool* pool = nullptr) : pool_(pool) {}
    MemoryPool* memory_pool() const { return pool_; }

 private:
    MemoryPool* pool_;
};
struct CastOptions {
    bool allow_int_overflow = false;
    bool allow_time_truncate = false;
    bool allow_time_overflow = false;
    bool allow_decimal_truncate = false;
    bool allow_float_truncate = false;
    bool allow_invalid_utf8 = false;
    TypeHolder to_type;
    static CastOptions Safe() { return CastOptions(); }
    static CastOptions Unsafe() {
        CastOptions o;
        o.allow_int_overflow = o.allow_time_truncate = o.allow_time_overflow =
            o.allow_decimal_truncate = o.allow_float_truncate = o.allow_invalid_utf8 = true;
        return o;
    }
};
struct AssumeTimezoneOptions {
    explicit AssumeTimezoneOptions(std::string tz) : timezone(std::move(tz)) {}
    std::string timezone;
};
enum class SortOrder { Ascending, Descending };
enum class NullPlacement { AtStart, AtEnd };
struct SortKey {
    SortKey(std::string n, SortOrder o) : name(std::move(n)), order(o) {}
    std::string name;
    SortOrder order;
};
struct SortOptions {
    SortOptions() = default;
    SortOptions(std::vector<SortKey> k, NullPlacement p) : keys(std::move(k)), placement(p) {}
    std::vector<SortKey> keys;
    NullPlacement placement = NullPlacement::AtEnd;
};
bool CanCast(const DataType& from, const DataType& to);
Result<Datum> Cast(const Datum& v, const TypeHolder& to, const CastOptions& o = CastOptions::Safe(),
                   ExecContext* ctx = nullptr);
Result<std::shared_ptr<Array>> Cast(const Array& v, const TypeHolder& to,
                                    const CastOptions& o = CastOptions::Safe(),
                                    ExecContext* ctx = nullptr);
Result<Datum> LocalTimestamp(const Datum& v, ExecContext* ctx = nullptr);
Result<Datum> AssumeTimezone(const Datum& v, AssumeTimezoneOptions o, ExecContext* ctx = nullptr);
Result<std::shared_ptr<Array>> SortIndices(const Datum& v, const SortOptions& o,
                                           ExecContext* ctx = nullptr);
}  // namespace compute
}  // namespace arrow

inline int ArrowArrayIsReleased(const struct ArrowArray* a) { return a->release == nullptr; }
inline void ArrowArrayMarkReleased(struct ArrowArray* a) { a->release = nullptr; }
inline void ArrowArrayRelease(struct ArrowArray* a) {
    if (a->release) a->release(a);
}
inline void ArrowArrayMove(struct ArrowArray* s, struct ArrowArray* d) {
    memcpy(d, s, sizeof(*s));
    s->release = nullptr;
}
inline int ArrowSchemaIsReleased(const struct ArrowSchema* a) { return a->release == nullptr; }
inline void ArrowSchemaMarkReleased(struct ArrowSchema* a) { a->release = nullptr; }
inline void ArrowSchemaRelease(struct ArrowSchema* a) {
    if (a->release) a->release(a);
}
inline void ArrowSchemaMove(struct ArrowSchema* s, struct ArrowSchema* d) {
    memcpy(d, s, sizeof(*s));
    s->release = nullptr;
}
