#include "arrow/mini_arrow.h"

#include <algorithm>
#include <cstdlib>
#include <numeric>

namespace arrow {

std::string internal::ToString(Type::type id) {
    static const char* names[] = {"NA", "BOOL", "UINT8", "INT8", "UINT16", "INT16", "UINT32", "INT32",
        "UINT64", "INT64", "HALF_FLOAT", "FLOAT", "DOUBLE", "STRING", "BINARY", "FIXED_SIZE_BINARY",
        "DATE32", "DATE64", "TIMESTAMP", "TIME32", "TIME64", "INTERVAL_MONTHS", "INTERVAL_DAY_TIME",
        "DECIMAL128", "DECIMAL256", "LIST", "STRUCT", "SPARSE_UNION", "DENSE_UNION", "DICTIONARY",
        "MAP", "EXTENSION", "FIXED_SIZE_LIST", "DURATION", "LARGE_STRING", "LARGE_BINARY", "LARGE_LIST"};
    return names[id];
}

uint32_t internal::crc32(uint32_t prev, const void* data, size_t length) {
    static const auto table = [] {
        std::array<uint32_t, 256> t{};
        for (uint32_t i = 0; i < 256; i++) {
            uint32_t c = i;
            for (int k = 0; k < 8; k++) c = (c & 1) ? 0xEDB88320u ^ (c >> 1) : c >> 1;
            t[i] = c;
        }
        return t;
    }();
    uint32_t c = ~prev;
    auto* p = static_cast<const uint8_t*>(data);
    for (size_t i = 0; i < length; i++) c = table[(c ^ p[i]) & 0xff] ^ (c >> 8);
    return ~c;
}
bool internal::StringToFloat(const char* s, size_t n, char, float* out) {
    std::string t(s, n);
    char* e = nullptr;
    *out = strtof(t.c_str(), &e);
    return n && *e == 0;
}
bool internal::StringToFloat(const char* s, size_t n, char, double* out) {
    std::string t(s, n);
    char* e = nullptr;
    *out = strtod(t.c_str(), &e);
    return n && *e == 0;
}

namespace {
class DefaultPool : public MemoryPool {
 public:
    Status Allocate(int64_t size, int64_t alignment, uint8_t** out) override {
        void* p = nullptr;
        if (posix_memalign(&p, std::max<int64_t>(alignment, 64), std::max<int64_t>(size, 1)))
            return Status::OutOfMemory("malloc failed");
        *out = static_cast<uint8_t*>(p);
        return Status::OK();
    }
    Status Reallocate(int64_t old_size, int64_t new_size, int64_t alignment, uint8_t** ptr) override {
        uint8_t* n = nullptr;
        ARROW_RETURN_NOT_OK(Allocate(new_size, alignment, &n));
        memcpy(n, *ptr, std::min(old_size, new_size));
        free(*ptr);
        *ptr = n;
        return Status::OK();
    }
    void Free(uint8_t* b, int64_t, int64_t) override { free(b); }
    int64_t bytes_allocated() const override { return 0; }
    int64_t total_bytes_allocated() const override { return 0; }
    int64_t num_allocations() const override { return 0; }
    std::string backend_name() const override { return "mini"; }
};
class StringBuffer : public Buffer {
 public:
    explicit StringBuffer(std::string s) : Buffer(nullptr, 0), s_(std::move(s)) {
        data_ = reinterpret_cast<const uint8_t*>(s_.data());
        size_ = static_cast<int64_t>(s_.size());
    }

 private:
    std::string s_;
};
}  // namespace

MemoryPool* default_memory_pool() {
    static DefaultPool* p = new DefaultPool();
    return p;
}
std::shared_ptr<Buffer> Buffer::FromString(std::string s) {
    return std::make_shared<StringBuffer>(std::move(s));
}
ResizableBuffer::~ResizableBuffer() {
    if (data_) pool_->Free(mutable_data(), cap_, kDefaultBufferAlignment);
}
Status ResizableBuffer::Reserve(int64_t cap) {
    if (cap <= cap_ && data_) return Status::OK();
    int64_t nc = std::max<int64_t>(64, (cap + 63) / 64 * 64);
    uint8_t* p = mutable_data();
    if (data_) {
        ARROW_RETURN_NOT_OK(pool_->Reallocate(cap_, nc, kDefaultBufferAlignment, &p));
    } else {
        ARROW_RETURN_NOT_OK(pool_->Allocate(nc, kDefaultBufferAlignment, &p));
    }
    if (!p) return Status::OutOfMemory("pool returned null");
    data_ = p;
    cap_ = nc;
    return Status::OK();
}
Status ResizableBuffer::Resize(int64_t n, bool) {
    if (n > cap_ || !data_) {
        ARROW_RETURN_NOT_OK(Reserve(data_ && n > cap_ ? std::max(n, cap_ * 2) : n));
    }
    size_ = n;
    return Status::OK();
}
Result<std::unique_ptr<Buffer>> AllocateBuffer(int64_t size, MemoryPool* pool) {
    auto b = std::make_unique<ResizableBuffer>(pool);
    ARROW_RETURN_NOT_OK(b->Resize(size));
    return std::unique_ptr<Buffer>(std::move(b));
}
Result<std::unique_ptr<ResizableBuffer>> AllocateResizableBuffer(int64_t size, MemoryPool* pool) {
    auto b = std::make_unique<ResizableBuffer>(pool);
    ARROW_RETURN_NOT_OK(b->Resize(size));
    return b;
}

// ---------------------------------------------------------------- types
std::string KeyValueMetadata::ToString() const {
    std::string r;
    for (int64_t i = 0; i < size(); i++) r += "\n" + key(i) + ": " + value(i);
    return r;
}
static bool MdEq(const std::shared_ptr<const KeyValueMetadata>& a,
                 const std::shared_ptr<const KeyValueMetadata>& b) {
    bool ea = !a || a->size() == 0, eb = !b || b->size() == 0;
    if (ea || eb) return ea && eb;
    return a->Equals(*b);
}
bool DataType::Equals(const DataType& o, bool md) const {
    if (this == &o) return true;
    if (id_ != o.id_) return false;
    switch (id_) {
        case Type::TIMESTAMP: {
            auto &a = static_cast<const TimestampType&>(*this), &b = static_cast<const TimestampType&>(o);
            return a.unit() == b.unit() && a.timezone() == b.timezone();
        }
        case Type::DECIMAL128: {
            auto &a = static_cast<const DecimalType&>(*this), &b = static_cast<const DecimalType&>(o);
            return a.precision() == b.precision() && a.scale() == b.scale();
        }
        case Type::FIXED_SIZE_BINARY:
            return byte_width() == o.byte_width();
        case Type::DICTIONARY: {
            auto &a = static_cast<const DictionaryType&>(*this), &b = static_cast<const DictionaryType&>(o);
            return a.index_type()->Equals(*b.index_type()) && a.value_type()->Equals(*b.value_type());
        }
        case Type::LIST: {
            auto &x = children_[0], &y = o.children_[0];
            return x->nullable() == y->nullable() && x->type()->Equals(*y->type(), md) &&
                   (!md || MdEq(x->metadata(), y->metadata()));
        }
        case Type::MAP: {
            auto &a = static_cast<const MapType&>(*this), &b = static_cast<const MapType&>(o);
            return a.key_type()->Equals(*b.key_type(), md) && a.item_type()->Equals(*b.item_type(), md) &&
                   a.item_field()->nullable() == b.item_field()->nullable();
        }
        default:
            break;
    }
    if (children_.size() != o.children_.size()) return false;
    for (size_t i = 0; i < children_.size(); i++)
        if (!children_[i]->Equals(*o.children_[i], md)) return false;
    return true;
}
bool Field::Equals(const Field& o, bool md) const {
    if (this == &o) return true;
    return name_ == o.name_ && nullable_ == o.nullable_ && type_->Equals(*o.type_, md) &&
           (!md || MdEq(md_, o.md_));
}
std::string Field::ToString(bool) const {
    return name_ + ": " + type_->ToString() + (nullable_ ? "" : " not null");
}
bool Schema::Equals(const Schema& o, bool md) const {
    if (fields_.size() != o.fields_.size()) return false;
    for (size_t i = 0; i < fields_.size(); i++)
        if (!fields_[i]->Equals(*o.fields_[i], md)) return false;
    return !md || MdEq(md_, o.md_);
}
std::string Schema::ToString(bool) const {
    std::string r;
    for (size_t i = 0; i < fields_.size(); i++) r += (i ? "\n" : "") + fields_[i]->ToString();
    return r;
}
std::string TimestampType::ToString(bool) const {
    static const char* u[] = {"s", "ms", "us", "ns"};
    std::string r = std::string("timestamp[") + u[unit_];
    if (!tz_.empty()) r += ", tz=" + tz_;
    return r + "]";
}
const std::shared_ptr<DataType>& BaseListType::value_type() const { return children_[0]->type(); }
ListType::ListType(std::shared_ptr<DataType> v) : BaseListType(Type::LIST) {
    children_ = {arrow::field("item", std::move(v))};
}
std::string ListType::ToString(bool) const { return "list<" + children_[0]->ToString() + ">"; }
MapType::MapType(std::shared_ptr<Field> k, std::shared_ptr<Field> v, bool sorted)
    : ListType(Type::MAP), sorted_(sorted) {
    children_ = {arrow::field("entries", struct_({std::move(k), std::move(v)}), false)};
}
MapType::MapType(std::shared_ptr<DataType> k, std::shared_ptr<DataType> v, bool sorted)
    : MapType(arrow::field("key", std::move(k), false), arrow::field("value", std::move(v)), sorted) {}
MapType::MapType(std::shared_ptr<DataType> k, std::shared_ptr<Field> v, bool sorted)
    : MapType(arrow::field("key", std::move(k), false), std::move(v), sorted) {}
const std::shared_ptr<Field>& MapType::key_field() const { return value_type()->field(0); }
const std::shared_ptr<Field>& MapType::item_field() const { return value_type()->field(1); }
const std::shared_ptr<DataType>& MapType::key_type() const { return key_field()->type(); }
const std::shared_ptr<DataType>& MapType::item_type() const { return item_field()->type(); }
std::string MapType::ToString(bool) const {
    return "map<" + key_type()->ToString() + ", " + item_type()->ToString() + ">";
}
std::string StructType::ToString(bool) const {
    std::string r = "struct<";
    for (size_t i = 0; i < children_.size(); i++) r += (i ? ", " : "") + children_[i]->ToString();
    return r + ">";
}
int StructType::GetFieldIndex(const std::string& n) const {
    int r = -1;
    for (size_t i = 0; i < children_.size(); i++)
        if (children_[i]->name() == n) {
            if (r >= 0) return -1;
            r = static_cast<int>(i);
        }
    return r;
}
std::shared_ptr<Field> StructType::GetFieldByName(const std::string& n) const {
    int i = GetFieldIndex(n);
    return i < 0 ? nullptr : children_[i];
}
#define F(NAME, CLS)                                                    \
    const std::shared_ptr<DataType>& NAME() {                           \
        static const std::shared_ptr<DataType> t = std::make_shared<CLS>(); \
        return t;                                                       \
    }
F(null, NullType)
F(boolean, BooleanType)
F(int8, Int8Type)
F(int16, Int16Type)
F(int32, Int32Type)
F(int64, Int64Type)
F(uint8, UInt8Type)
F(uint16, UInt16Type)
F(uint32, UInt32Type)
F(uint64, UInt64Type)
F(float32, FloatType)
F(float64, DoubleType)
F(date32, Date32Type)
F(utf8, StringType)
F(binary, BinaryType)
F(large_utf8, LargeStringType)
F(large_binary, LargeBinaryType)
#undef F
std::shared_ptr<DataType> timestamp(TimeUnit::type u) { return std::make_shared<TimestampType>(u); }
std::shared_ptr<DataType> timestamp(TimeUnit::type u, const std::string& tz) {
    return std::make_shared<TimestampType>(u, tz);
}
std::shared_ptr<DataType> decimal128(int32_t p, int32_t s) { return std::make_shared<Decimal128Type>(p, s); }
std::shared_ptr<DataType> decimal(int32_t p, int32_t s) { return decimal128(p, s); }
std::shared_ptr<DataType> list(const std::shared_ptr<DataType>& t) { return std::make_shared<ListType>(t); }
std::shared_ptr<DataType> list(const std::shared_ptr<Field>& f) { return std::make_shared<ListType>(f); }
std::shared_ptr<DataType> map(std::shared_ptr<DataType> k, std::shared_ptr<DataType> v, bool s) {
    return std::make_shared<MapType>(std::move(k), std::move(v), s);
}
std::shared_ptr<DataType> map(std::shared_ptr<DataType> k, std::shared_ptr<Field> v, bool s) {
    return std::make_shared<MapType>(std::move(k), std::move(v), s);
}
std::shared_ptr<DataType> struct_(const FieldVector& f) { return std::make_shared<StructType>(f); }
std::shared_ptr<DataType> dictionary(const std::shared_ptr<DataType>& i, const std::shared_ptr<DataType>& v, bool) {
    return std::make_shared<DictionaryType>(i, v);
}
std::shared_ptr<Field> field(std::string n, std::shared_ptr<DataType> t, bool nullable,
                             std::shared_ptr<const KeyValueMetadata> md) {
    return std::make_shared<Field>(std::move(n), std::move(t), nullable, std::move(md));
}
std::shared_ptr<Field> field(std::string n, std::shared_ptr<DataType> t,
                             std::shared_ptr<const KeyValueMetadata> md) {
    return std::make_shared<Field>(std::move(n), std::move(t), true, std::move(md));
}
std::shared_ptr<Schema> schema(FieldVector f, std::shared_ptr<const KeyValueMetadata> md) {
    return std::make_shared<Schema>(std::move(f), std::move(md));
}
std::shared_ptr<KeyValueMetadata> key_value_metadata(std::vector<std::string> k, std::vector<std::string> v) {
    return KeyValueMetadata::Make(std::move(k), std::move(v));
}
std::shared_ptr<KeyValueMetadata> key_value_metadata(const std::unordered_map<std::string, std::string>& m) {
    return std::make_shared<KeyValueMetadata>(m);
}

// ---------------------------------------------------------------- decimal
const BasicDecimal128& BasicDecimal128::GetScaleMultiplier(int32_t scale) {
    static const auto t = [] {
        std::array<BasicDecimal128, 39> r;
        __int128_t v = 1;
        for (int i = 0; i < 39; i++) {
            r[i] = From(v);
            if (i < 38) v *= 10;
        }
        return r;
    }();
    return t[scale];
}
bool BasicDecimal128::FitsInPrecision(int32_t p) const {
    __int128_t a = v_ < 0 ? -v_ : v_;
    return a < GetScaleMultiplier(p).v_;
}
BasicDecimal128 BasicDecimal128::IncreaseScaleBy(int32_t n) const { return From(v_ * GetScaleMultiplier(n).v_); }
BasicDecimal128 BasicDecimal128::ReduceScaleBy(int32_t n, bool round) const {
    if (n == 0) return *this;
    __int128_t d = GetScaleMultiplier(n).v_, q = v_ / d, r = v_ % d;
    if (round) {
        __int128_t ar = r < 0 ? -r : r;
        if (ar >= d / 2) q += v_ < 0 ? -1 : 1;
    }
    return From(q);
}
std::string Decimal128::ToIntegerString() const {
    __uint128_t a = v_ < 0 ? -static_cast<__uint128_t>(v_) : static_cast<__uint128_t>(v_);
    std::string s;
    do {
        s.insert(s.begin(), char('0' + static_cast<int>(a % 10)));
        a /= 10;
    } while (a);
    if (v_ < 0) s.insert(s.begin(), '-');
    return s;
}
std::string Decimal128::ToString(int32_t scale) const {
    std::string s = ToIntegerString();
    if (scale <= 0) return s;
    bool neg = s[0] == '-';
    if (neg) s.erase(0, 1);
    while (static_cast<int32_t>(s.size()) <= scale) s.insert(s.begin(), '0');
    s.insert(s.size() - scale, ".");
    return neg ? "-" + s : s;
}
Result<Decimal128> Decimal128::Rescale(int32_t from, int32_t to) const {
    if (from == to) return *this;
    int32_t d = to - from;
    if (d > 0) {
        Decimal128 r = IncreaseScaleBy(d);
        if (Decimal128(r.ReduceScaleBy(d, false)) != *this) return Status::Invalid("rescale data loss");
        return r;
    }
    Decimal128 r = ReduceScaleBy(-d, false);
    if (Decimal128(r.IncreaseScaleBy(-d)) != *this) return Status::Invalid("rescale data loss");
    return r;
}
Status Decimal128::FromString(std::string_view s, Decimal128* out, int32_t* p, int32_t* sc) {
    bool neg = false, dot = false;
    size_t i = 0;
    if (i < s.size() && (s[i] == '-' || s[i] == '+')) neg = s[i++] == '-';
    __int128_t v = 0;
    int32_t digits = 0, scale = 0;
    bool any = false;
    for (; i < s.size(); i++) {
        if (s[i] == '.' && !dot) { dot = true; continue; }
        if (s[i] < '0' || s[i] > '9') return Status::Invalid("bad decimal ", std::string(s));
        any = true;
        v = v * 10 + (s[i] - '0');
        if (v != 0 || dot) digits++;
        if (dot) scale++;
        if (digits > 38) return Status::Invalid("decimal too long");
    }
    if (!any) return Status::Invalid("bad decimal ", std::string(s));
    if (out) *out = From(neg ? -v : v);
    if (p) *p = std::max(digits, 1);
    if (sc) *sc = scale;
    return Status::OK();
}
Result<Decimal128> Decimal128::FromReal(double v, int32_t precision, int32_t scale) {
    double x = std::nearbyint(v * std::pow(10.0, scale));
    if (!(std::fabs(x) < std::pow(10.0, precision))) return Status::Invalid("cannot convert to decimal");
    return Decimal128(From(static_cast<__int128_t>(x)));
}
Result<Decimal128> Decimal128::FromReal(float v, int32_t p, int32_t s) { return FromReal(static_cast<double>(v), p, s); }
double Decimal128::ToDouble(int32_t scale) const { return static_cast<double>(v_) / std::pow(10.0, scale); }

// ---------------------------------------------------------------- arrays
std::shared_ptr<Array> MakeArray(const std::shared_ptr<ArrayData>& d) {
    switch (d->type->id()) {
#define C(ID, CLS) case Type::ID: return std::make_shared<CLS>(d);
        C(NA, NullArray) C(BOOL, BooleanArray) C(INT8, Int8Array) C(INT16, Int16Array)
        C(INT32, Int32Array) C(INT64, Int64Array) C(UINT8, UInt8Array) C(UINT16, UInt16Array)
        C(UINT32, UInt32Array) C(UINT64, UInt64Array) C(FLOAT, FloatArray) C(DOUBLE, DoubleArray)
        C(DATE32, Date32Array) C(TIMESTAMP, TimestampArray) C(STRING, StringArray)
        C(BINARY, BinaryArray) C(LARGE_STRING, LargeStringArray) C(LARGE_BINARY, LargeBinaryArray)
        C(DECIMAL128, Decimal128Array) C(LIST, ListArray) C(MAP, MapArray) C(STRUCT, StructArray)
        C(DICTIONARY, DictionaryArray) C(FIXED_SIZE_BINARY, FixedSizeBinaryArray)
#undef C
        default:
            fprintf(stderr, "mini arrow: unsupported array type %s\n", d->type->ToString().c_str());
            abort();
    }
}
std::shared_ptr<Array> Array::Slice(int64_t off, int64_t len) const { return MakeArray(data_->Slice(off, len)); }
Result<std::shared_ptr<Array>> Array::View(const std::shared_ptr<DataType>& t) const {
    if (t->byte_width() != data_->type->byte_width() || t->byte_width() <= 0)
        return Status::Invalid("cannot view");
    auto d = data_->Copy();
    d->type = t;
    return MakeArray(d);
}
bool Array::Equals(const Array& o) const {
    if (length() != o.length() || !type()->Equals(*o.type())) return false;
    for (int64_t i = 0; i < length(); i++) {
        if (IsNull(i) != o.IsNull(i)) return false;
        if (IsNull(i)) continue;
        switch (type_id()) {
            case Type::NA: break;
            case Type::BOOL:
                if (static_cast<const BooleanArray&>(*this).Value(i) != static_cast<const BooleanArray&>(o).Value(i)) return false;
                break;
            case Type::STRING: case Type::BINARY:
                if (static_cast<const BinaryArray&>(*this).GetView(i) != static_cast<const BinaryArray&>(o).GetView(i)) return false;
                break;
            case Type::LARGE_STRING: case Type::LARGE_BINARY:
                if (static_cast<const LargeBinaryArray&>(*this).GetView(i) != static_cast<const LargeBinaryArray&>(o).GetView(i)) return false;
                break;
            case Type::LIST: {
                auto &a = static_cast<const ListArray&>(*this), &b = static_cast<const ListArray&>(o);
                if (!a.value_slice(i)->Equals(*b.value_slice(i))) return false;
                break;
            }
            case Type::MAP: {
                auto &a = static_cast<const MapArray&>(*this), &b = static_cast<const MapArray&>(o);
                if (!a.keys()->Slice(a.value_offset(i), a.value_length(i))->Equals(*b.keys()->Slice(b.value_offset(i), b.value_length(i)))) return false;
                if (!a.items()->Slice(a.value_offset(i), a.value_length(i))->Equals(*b.items()->Slice(b.value_offset(i), b.value_length(i)))) return false;
                break;
            }
            case Type::STRUCT: {
                auto &a = static_cast<const StructArray&>(*this), &b = static_cast<const StructArray&>(o);
                for (int c = 0; c < num_fields(); c++)
                    if (!a.field(c)->Slice(i, 1)->Equals(*b.field(c)->Slice(i, 1))) return false;
                break;
            }
            default: {
                int w = type()->byte_width();
                if (w <= 0) return false;
                if (memcmp(data_->buffers[1]->data() + (data_->offset + i) * w,
                           o.data_->buffers[1]->data() + (o.data_->offset + i) * w, w)) return false;
            }
        }
    }
    return true;
}
template <typename T>
static std::string NumStr(const Array& a, int64_t i) {
    auto v = static_cast<const NumericArray<T>&>(a).Value(i);
    return MiniScalarToString(v);
}
static std::string ValStr(const Array& a, int64_t i) {
    if (a.IsNull(i)) return "null";
    switch (a.type_id()) {
        case Type::BOOL: return static_cast<const BooleanArray&>(a).Value(i) ? "true" : "false";
        case Type::INT8: return NumStr<Int8Type>(a, i);
        case Type::INT16: return NumStr<Int16Type>(a, i);
        case Type::INT32: return NumStr<Int32Type>(a, i);
        case Type::INT64: return NumStr<Int64Type>(a, i);
        case Type::UINT8: return NumStr<UInt8Type>(a, i);
        case Type::UINT16: return NumStr<UInt16Type>(a, i);
        case Type::UINT32: return NumStr<UInt32Type>(a, i);
        case Type::UINT64: return NumStr<UInt64Type>(a, i);
        case Type::FLOAT: return NumStr<FloatType>(a, i);
        case Type::DOUBLE: return NumStr<DoubleType>(a, i);
        case Type::DATE32: return NumStr<Date32Type>(a, i);
        case Type::TIMESTAMP: return NumStr<TimestampType>(a, i);
        case Type::STRING: case Type::BINARY: return "\"" + std::string(static_cast<const BinaryArray&>(a).GetView(i)) + "\"";
        case Type::LARGE_STRING: case Type::LARGE_BINARY: return "\"" + std::string(static_cast<const LargeBinaryArray&>(a).GetView(i)) + "\"";
        case Type::DECIMAL128: return static_cast<const Decimal128Array&>(a).FormatValue(i);
        case Type::LIST: return static_cast<const ListArray&>(a).value_slice(i)->ToString();
        case Type::MAP: {
            auto& m = static_cast<const MapArray&>(a);
            std::string r = "{";
            for (int32_t k = m.value_offset(i); k < m.value_offset(i + 1); k++)
                r += ValStr(*m.keys(), k) + ":" + ValStr(*m.items(), k) + ",";
            return r + "}";
        }
        case Type::STRUCT: {
            auto& s = static_cast<const StructArray&>(a);
            std::string r = "(";
            for (int c = 0; c < s.num_fields(); c++) r += (c ? "," : "") + ValStr(*s.field(c), i);
            return r + ")";
        }
        default: return "?";
    }
}
std::string Array::ToString() const {
    std::string r = "[";
    for (int64_t i = 0; i < length(); i++) r += (i ? "," : "") + ValStr(*this, i);
    return r + "]";
}
ListArray::ListArray(std::shared_ptr<ArrayData> d) : Array(std::move(d)) {
    values_ = MakeArray(data_->child_data[0]);
    off_ = data_->buffers[1] ? data_->buffers[1]->data_as<int32_t>() : nullptr;
}
ListArray::ListArray(std::shared_ptr<DataType> type, int64_t length, std::shared_ptr<Buffer> offsets,
                     std::shared_ptr<Array> values, std::shared_ptr<Buffer> nulls, int64_t nc, int64_t offset)
    : ListArray(ArrayData::Make(std::move(type), length, {std::move(nulls), std::move(offsets)},
                                {values->data()}, nc, offset)) {}
void MapArray::Init() {
    auto* s = static_cast<StructArray*>(values_.get());
    keys_ = s->field(0);
    items_ = s->field(1);
}
MapArray::MapArray(std::shared_ptr<ArrayData> d) : ListArray(std::move(d)) { Init(); }
MapArray::MapArray(const std::shared_ptr<DataType>& type, int64_t length, const std::shared_ptr<Buffer>& offsets,
                   const std::shared_ptr<Array>& keys, const std::shared_ptr<Array>& items,
                   const std::shared_ptr<Buffer>& nulls, int64_t nc, int64_t offset)
    : ListArray(ArrayData::Make(type, length, {nulls, offsets},
                                {ArrayData::Make(type->field(0)->type(), keys->length(), {nullptr},
                                                 {keys->data(), items->data()}, 0)},
                                nc, offset)) {
    Init();
}
StructArray::StructArray(const std::shared_ptr<DataType>& type, int64_t length, const ArrayVector& children,
                         std::shared_ptr<Buffer> nulls, int64_t nc, int64_t offset)
    : Array([&] {
          std::vector<std::shared_ptr<ArrayData>> c;
          for (auto& a : children) c.push_back(a->data());
          return ArrayData::Make(type, length, {std::move(nulls)}, c, nc, offset);
      }()) {}
Result<std::shared_ptr<StructArray>> StructArray::Make(const ArrayVector& children, const FieldVector& fields,
                                                       std::shared_ptr<Buffer> nulls, int64_t nc, int64_t offset) {
    if (children.size() != fields.size()) return Status::Invalid("Mismatching number of fields and children");
    if (children.empty()) return Status::Invalid("Can't infer struct array length with 0 child arrays");
    for (auto& c : children)
        if (c->length() != children[0]->length()) return Status::Invalid("Mismatching child array lengths");
    for (size_t i = 0; i < children.size(); i++)
        if (!children[i]->type()->Equals(*fields[i]->type()))
            return Status::Invalid("Mismatching data type for child array ", fields[i]->name());
    if (!nulls) nc = 0;
    return std::make_shared<StructArray>(struct_(fields), children[0]->length() - offset, children,
                                         std::move(nulls), nc, offset);
}
Result<std::shared_ptr<StructArray>> StructArray::Make(const ArrayVector& children, const std::vector<std::string>& names,
                                                       std::shared_ptr<Buffer> nulls, int64_t nc, int64_t offset) {
    if (children.size() != names.size()) return Status::Invalid("Mismatching number of field names and child arrays");
    FieldVector f;
    for (size_t i = 0; i < children.size(); i++) f.push_back(arrow::field(names[i], children[i]->type()));
    return Make(children, f, std::move(nulls), nc, offset);
}
const ArrayVector& StructArray::fields() const {
    if (!boxed_done_) {
        for (auto& c : data_->child_data) {
            auto d = (data_->offset != 0 || c->length != data_->length) ? c->Slice(data_->offset, data_->length) : c;
            boxed_.push_back(MakeArray(d));
        }
        boxed_done_ = true;
    }
    return boxed_;
}
std::shared_ptr<Array> StructArray::GetFieldByName(const std::string& n) const {
    int i = struct_type()->GetFieldIndex(n);
    return i < 0 ? nullptr : fields()[i];
}
DictionaryArray::DictionaryArray(std::shared_ptr<ArrayData> d) : Array(std::move(d)) {
    auto c = data_->Copy();
    c->type = static_cast<const DictionaryType&>(*data_->type).index_type();
    c->dictionary = nullptr;
    indices_ = MakeArray(c);
    dict_ = MakeArray(data_->dictionary);
}
static std::shared_ptr<ArrayData> MakeDict(const std::shared_ptr<DataType>& t, const std::shared_ptr<Array>& i,
                                           const std::shared_ptr<Array>& d) {
    auto c = i->data()->Copy();
    c->type = t;
    c->dictionary = d->data();
    return c;
}
DictionaryArray::DictionaryArray(const std::shared_ptr<DataType>& t, const std::shared_ptr<Array>& i,
                                 const std::shared_ptr<Array>& d)
    : DictionaryArray(MakeDict(t, i, d)) {}

// ---------------------------------------------------------------- builders
Status MapBuilder::FinishInternal(std::shared_ptr<ArrayData>* out) {
    std::shared_ptr<Buffer> n, o;
    std::shared_ptr<ArrayData> k, v;
    int64_t len = length_, nc = null_count_, el = children_[0]->length();
    if (children_[0]->length() != children_[1]->length()) return Status::Invalid("map key/item length mismatch");
    ARROW_RETURN_NOT_OK(offs_.Append(static_cast<int32_t>(el)));
    ARROW_RETURN_NOT_OK(FinishNulls(&n));
    ARROW_RETURN_NOT_OK(offs_.Finish(&o));
    ARROW_RETURN_NOT_OK(children_[0]->FinishInternal(&k));
    ARROW_RETURN_NOT_OK(children_[1]->FinishInternal(&v));
    children_[0]->Reset();
    children_[1]->Reset();
    auto entries = ArrayData::Make(type_->field(0)->type(), el, {nullptr}, {k, v}, 0);
    *out = ArrayData::Make(type_, len, {n, o}, {entries}, nc);
    return Status::OK();
}
Status MakeBuilder(MemoryPool* pool, const std::shared_ptr<DataType>& t, std::unique_ptr<ArrayBuilder>* out) {
    switch (t->id()) {
        case Type::NA: *out = std::make_unique<NullBuilder>(pool); break;
        case Type::BOOL: *out = std::make_unique<BooleanBuilder>(pool); break;
#define C(ID, CLS) case Type::ID: *out = std::make_unique<CLS>(t, pool); break;
        C(INT8, Int8Builder) C(INT16, Int16Builder) C(INT32, Int32Builder) C(INT64, Int64Builder)
        C(UINT8, UInt8Builder) C(UINT16, UInt16Builder) C(UINT32, UInt32Builder) C(UINT64, UInt64Builder)
        C(FLOAT, FloatBuilder) C(DOUBLE, DoubleBuilder) C(DATE32, Date32Builder) C(TIMESTAMP, TimestampBuilder)
        C(STRING, StringBuilder) C(BINARY, BinaryBuilder) C(LARGE_BINARY, LargeBinaryBuilder)
        C(DECIMAL128, Decimal128Builder)
#undef C
        case Type::LIST: {
            std::unique_ptr<ArrayBuilder> v;
            ARROW_RETURN_NOT_OK(MakeBuilder(pool, t->field(0)->type(), &v));
            *out = std::make_unique<ListBuilder>(pool, std::shared_ptr<ArrayBuilder>(std::move(v)), t);
            break;
        }
        case Type::MAP: {
            auto& m = static_cast<const MapType&>(*t);
            std::unique_ptr<ArrayBuilder> k, v;
            ARROW_RETURN_NOT_OK(MakeBuilder(pool, m.key_type(), &k));
            ARROW_RETURN_NOT_OK(MakeBuilder(pool, m.item_type(), &v));
            *out = std::make_unique<MapBuilder>(pool, std::shared_ptr<ArrayBuilder>(std::move(k)),
                                                std::shared_ptr<ArrayBuilder>(std::move(v)), t);
            break;
        }
        case Type::STRUCT: {
            std::vector<std::shared_ptr<ArrayBuilder>> c;
            for (auto& f : t->fields()) {
                std::unique_ptr<ArrayBuilder> b;
                ARROW_RETURN_NOT_OK(MakeBuilder(pool, f->type(), &b));
                c.push_back(std::move(b));
            }
            *out = std::make_unique<StructBuilder>(t, pool, std::move(c));
            break;
        }
        default:
            return Status::NotImplemented("MakeBuilder: ", t->ToString());
    }
    return Status::OK();
}
Result<std::unique_ptr<ArrayBuilder>> MakeBuilder(const std::shared_ptr<DataType>& type, MemoryPool* pool) {
    std::unique_ptr<ArrayBuilder> b;
    ARROW_RETURN_NOT_OK(MakeBuilder(pool, type, &b));
    return b;
}
Result<std::shared_ptr<Array>> MakeArrayOfNull(const std::shared_ptr<DataType>& t, int64_t n, MemoryPool* pool) {
    std::unique_ptr<ArrayBuilder> b;
    ARROW_RETURN_NOT_OK(MakeBuilder(pool, t, &b));
    ARROW_RETURN_NOT_OK(b->AppendNulls(n));
    return b->Finish();
}
Result<std::shared_ptr<Array>> MakeEmptyArray(std::shared_ptr<DataType> t, MemoryPool* pool) {
    return MakeArrayOfNull(t, 0, pool);
}
static Status AppendScalar(ArrayBuilder* b, const Scalar& s) {
    if (!s.is_valid) return b->AppendNull();
    switch (s.type->id()) {
#define C(ID, N) case Type::ID: return static_cast<N##Builder*>(b)->Append(static_cast<const PrimitiveScalar<N##Type>&>(s).value);
        C(BOOL, Boolean) C(INT8, Int8) C(INT16, Int16) C(INT32, Int32) C(INT64, Int64) C(UINT8, UInt8)
        C(UINT16, UInt16) C(UINT32, UInt32) C(UINT64, UInt64) C(FLOAT, Float) C(DOUBLE, Double)
        C(DATE32, Date32) C(TIMESTAMP, Timestamp)
#undef C
        case Type::STRING: case Type::BINARY:
            return static_cast<BinaryBuilder*>(b)->Append(static_cast<const BaseBinaryScalar&>(s).view());
        case Type::DECIMAL128:
            return static_cast<Decimal128Builder*>(b)->Append(static_cast<const Decimal128Scalar&>(s).value);
        default:
            return Status::NotImplemented("scalar type");
    }
}
Result<std::shared_ptr<Array>> MakeArrayFromScalar(const Scalar& s, int64_t n, MemoryPool* pool) {
    std::unique_ptr<ArrayBuilder> b;
    ARROW_RETURN_NOT_OK(MakeBuilder(pool, s.type, &b));
    for (int64_t i = 0; i < n; i++) ARROW_RETURN_NOT_OK(AppendScalar(b.get(), s));
    return b->Finish();
}
Result<std::shared_ptr<Array>> Concatenate(const ArrayVector& arrays, MemoryPool* pool) {
    if (arrays.empty()) return Status::Invalid("Must pass at least one array");
    for (auto& a : arrays)
        if (!a->type()->Equals(*arrays[0]->type()))
            return Status::Invalid("arrays to be concatenated must be identically typed");
    std::unique_ptr<ArrayBuilder> b;
    ARROW_RETURN_NOT_OK(MakeBuilder(pool, arrays[0]->type(), &b));
    for (auto& a : arrays) ARROW_RETURN_NOT_OK(b->AppendArraySlice(*a, 0, a->length()));
    return b->Finish();
}
Result<std::shared_ptr<Scalar>> Array::GetScalar(int64_t i) const {
    switch (type_id()) {
#define C(ID, N)                                                                                  \
    case Type::ID:                                                                                \
        if (IsNull(i)) { auto r = std::make_shared<N##Scalar>(N##Type::c_type{}, type()); r->is_valid = false; return std::shared_ptr<Scalar>(r); } \
        return std::shared_ptr<Scalar>(std::make_shared<N##Scalar>(static_cast<const N##Array&>(*this).Value(i), type()));
        C(BOOL, Boolean) C(INT8, Int8) C(INT16, Int16) C(INT32, Int32) C(INT64, Int64) C(FLOAT, Float)
        C(DOUBLE, Double) C(DATE32, Date32) C(TIMESTAMP, Timestamp)
#undef C
        case Type::STRING: case Type::BINARY: {
            std::shared_ptr<Buffer> b = IsNull(i) ? nullptr : Buffer::FromString(std::string(static_cast<const BinaryArray&>(*this).GetView(i)));
            return std::shared_ptr<Scalar>(std::make_shared<BinaryScalar>(b, type()));
        }
        default:
            return Status::NotImplemented("GetScalar");
    }
}

// ---------------------------------------------------------------- C data interface
namespace {
std::string FormatOf(const DataType& t) {
    switch (t.id()) {
        case Type::NA: return "n";
        case Type::BOOL: return "b";
        case Type::INT8: return "c";
        case Type::UINT8: return "C";
        case Type::INT16: return "s";
        case Type::UINT16: return "S";
        case Type::INT32: return "i";
        case Type::UINT32: return "I";
        case Type::INT64: return "l";
        case Type::UINT64: return "L";
        case Type::FLOAT: return "f";
        case Type::DOUBLE: return "g";
        case Type::BINARY: return "z";
        case Type::LARGE_BINARY: return "Z";
        case Type::STRING: return "u";
        case Type::LARGE_STRING: return "U";
        case Type::DATE32: return "tdD";
        case Type::TIMESTAMP: {
            auto& ts = static_cast<const TimestampType&>(t);
            static const char* u[] = {"tss:", "tsm:", "tsu:", "tsn:"};
            return u[ts.unit()] + ts.timezone();
        }
        case Type::DECIMAL128: {
            auto& d = static_cast<const DecimalType&>(t);
            return "d:" + std::to_string(d.precision()) + "," + std::to_string(d.scale());
        }
        case Type::LIST: return "+l";
        case Type::MAP: return "+m";
        case Type::STRUCT: return "+s";
        case Type::DICTIONARY: return FormatOf(*static_cast<const DictionaryType&>(t).index_type());
        default: return "";
    }
}
struct SchemaPriv {
    std::string format, name, metadata;
    std::vector<ArrowSchema> children;
    std::vector<ArrowSchema*> ptrs;
    ArrowSchema dict;
    bool has_dict = false;
};
void ReleaseSchemaImpl(ArrowSchema* s) {
    auto* p = static_cast<SchemaPriv*>(s->private_data);
    for (auto& c : p->children)
        if (c.release) c.release(&c);
    if (p->has_dict && p->dict.release) p->dict.release(&p->dict);
    delete p;
    s->release = nullptr;
}
std::string EncodeMd(const KeyValueMetadata& md) {
    std::string r;
    auto put = [&](int32_t v) { r.append(reinterpret_cast<const char*>(&v), 4); };
    put(static_cast<int32_t>(md.size()));
    for (int64_t i = 0; i < md.size(); i++) {
        put(static_cast<int32_t>(md.key(i).size()));
        r += md.key(i);
        put(static_cast<int32_t>(md.value(i).size()));
        r += md.value(i);
    }
    return r;
}
std::shared_ptr<KeyValueMetadata> DecodeMd(const char* p) {
    if (!p) return nullptr;
    auto get = [&]() { int32_t v; memcpy(&v, p, 4); p += 4; return v; };
    int32_t n = get();
    if (n == 0) return nullptr;
    auto md = std::make_shared<KeyValueMetadata>();
    for (int32_t i = 0; i < n; i++) {
        int32_t l = get();
        std::string k(p, l);
        p += l;
        l = get();
        std::string v(p, l);
        p += l;
        md->Append(std::move(k), std::move(v));
    }
    return md;
}
Status ExportSchemaNode(const DataType& t, const std::string& name, bool nullable,
                        const KeyValueMetadata* md, ArrowSchema* out) {
    memset(out, 0, sizeof(*out));
    auto p = std::make_unique<SchemaPriv>();
    p->format = FormatOf(t);
    if (p->format.empty()) return Status::NotImplemented("export type ", t.ToString());
    p->name = name;
    if (md && md->size()) p->metadata = EncodeMd(*md);
    p->children.resize(t.num_fields());
    for (auto& c : p->children) c.release = nullptr;
    for (int i = 0; i < t.num_fields(); i++) {
        auto& f = *t.field(i);
        ARROW_RETURN_NOT_OK(ExportSchemaNode(*f.type(), f.name(), f.nullable(), f.metadata().get(), &p->children[i]));
        p->ptrs.push_back(&p->children[i]);
    }
    if (t.id() == Type::DICTIONARY) {
        ARROW_RETURN_NOT_OK(ExportSchemaNode(*static_cast<const DictionaryType&>(t).value_type(), "", true, nullptr, &p->dict));
        p->has_dict = true;
    }
    out->format = p->format.c_str();
    out->name = p->name.c_str();
    out->metadata = p->metadata.empty() ? nullptr : p->metadata.data();
    out->flags = nullable ? ARROW_FLAG_NULLABLE : 0;
    out->n_children = t.num_fields();
    out->children = p->ptrs.data();
    out->dictionary = p->has_dict ? &p->dict : nullptr;
    out->release = ReleaseSchemaImpl;
    out->private_data = p.release();
    return Status::OK();
}
Result<std::shared_ptr<Field>> ImportNode(const ArrowSchema* s) {
    std::string f = s->format ? s->format : "";
    std::vector<std::shared_ptr<Field>> ch;
    for (int64_t i = 0; i < s->n_children; i++) {
        ARROW_ASSIGN_OR_RAISE(auto c, ImportNode(s->children[i]));
        ch.push_back(c);
    }
    std::shared_ptr<DataType> t;
    if (f == "n") t = null();
    else if (f == "b") t = boolean();
    else if (f == "c") t = int8();
    else if (f == "C") t = uint8();
    else if (f == "s") t = int16();
    else if (f == "S") t = uint16();
    else if (f == "i") t = int32();
    else if (f == "I") t = uint32();
    else if (f == "l") t = int64();
    else if (f == "L") t = uint64();
    else if (f == "f") t = float32();
    else if (f == "g") t = float64();
    else if (f == "z") t = binary();
    else if (f == "Z") t = large_binary();
    else if (f == "u") t = utf8();
    else if (f == "U") t = large_utf8();
    else if (f == "tdD") t = date32();
    else if (f.rfind("ts", 0) == 0 && f.size() >= 4) {
        TimeUnit::type u = f[2] == 's' ? TimeUnit::SECOND : f[2] == 'm' ? TimeUnit::MILLI : f[2] == 'u' ? TimeUnit::MICRO : TimeUnit::NANO;
        t = timestamp(u, f.substr(4));
    } else if (f.rfind("d:", 0) == 0) {
        int p = 0, sc = 0;
        sscanf(f.c_str(), "d:%d,%d", &p, &sc);
        t = decimal128(p, sc);
    } else if (f == "+l") t = list(ch[0]);
    else if (f == "+m") t = std::make_shared<MapType>(ch[0]->type()->field(0), ch[0]->type()->field(1), (s->flags & ARROW_FLAG_MAP_KEYS_SORTED) != 0);
    else if (f == "+s") t = struct_(ch);
    else return Status::NotImplemented("import format ", f);
    if (s->dictionary) {
        ARROW_ASSIGN_OR_RAISE(auto d, ImportNode(s->dictionary));
        t = dictionary(t, d->type());
    }
    return arrow::field(s->name ? s->name : "", t, (s->flags & ARROW_FLAG_NULLABLE) != 0, DecodeMd(s->metadata));
}
struct ArrayPriv {
    std::shared_ptr<ArrayData> data;
    std::vector<const void*> buffers;
    std::vector<ArrowArray> children;
    std::vector<ArrowArray*> ptrs;
    ArrowArray dict;
    bool has_dict = false;
};
void ReleaseArrayImpl(ArrowArray* a) {
    auto* p = static_cast<ArrayPriv*>(a->private_data);
    for (auto& c : p->children)
        if (c.release) c.release(&c);
    if (p->has_dict && p->dict.release) p->dict.release(&p->dict);
    delete p;
    a->release = nullptr;
}
void ExportData(const std::shared_ptr<ArrayData>& d, ArrowArray* out) {
    memset(out, 0, sizeof(*out));
    auto* p = new ArrayPriv();
    p->data = d;
    size_t skip = d->type->id() == Type::NA ? d->buffers.size() : 0;
    for (size_t i = skip; i < d->buffers.size(); i++) p->buffers.push_back(d->buffers[i] ? d->buffers[i]->data() : nullptr);
    p->children.resize(d->child_data.size());
    for (size_t i = 0; i < d->child_data.size(); i++) {
        ExportData(d->child_data[i], &p->children[i]);
        p->ptrs.push_back(&p->children[i]);
    }
    if (d->dictionary) {
        ExportData(d->dictionary, &p->dict);
        p->has_dict = true;
    }
    out->length = d->length;
    out->null_count = d->null_count;
    out->offset = d->offset;
    out->n_buffers = static_cast<int64_t>(p->buffers.size());
    out->n_children = static_cast<int64_t>(p->children.size());
    out->buffers = p->buffers.data();
    out->children = p->ptrs.data();
    out->dictionary = p->has_dict ? &p->dict : nullptr;
    out->release = ReleaseArrayImpl;
    out->private_data = p;
}
struct ImportedOwner {
    ArrowArray a;
    ~ImportedOwner() {
        if (a.release) a.release(&a);
    }
};
class ImportedBuffer : public Buffer {
 public:
    ImportedBuffer(const uint8_t* d, int64_t s, std::shared_ptr<ImportedOwner> o) : Buffer(d, s), owner_(std::move(o)) {}

 private:
    std::shared_ptr<ImportedOwner> owner_;
};
Result<std::shared_ptr<ArrayData>> ImportData(const ArrowArray* a, const std::shared_ptr<DataType>& t,
                                              const std::shared_ptr<ImportedOwner>& o) {
    auto d = std::make_shared<ArrayData>();
    d->type = t;
    d->length = a->length;
    d->null_count = a->null_count;
    d->offset = a->offset;
    int64_t n = a->length + a->offset;
    auto wrap = [&](int64_t i, int64_t size) -> std::shared_ptr<Buffer> {
        if (i >= a->n_buffers || !a->buffers[i]) return nullptr;
        return std::make_shared<ImportedBuffer>(static_cast<const uint8_t*>(a->buffers[i]), size, o);
    };
    auto id = t->id();
    if (id == Type::NA) {
        d->buffers = {nullptr};
    } else {
        int64_t expect = id == Type::STRUCT ? 1 : (id == Type::STRING || id == Type::BINARY || id == Type::LARGE_STRING || id == Type::LARGE_BINARY) ? 3 : 2;
        if (a->n_buffers != expect) return Status::Invalid("Expected ", expect, " buffers for imported type ", t->ToString(), ", ArrowArray struct has ", a->n_buffers);
        d->buffers.push_back(wrap(0, bit_util::BytesForBits(n)));
        if (expect == 3) {
            bool large = id == Type::LARGE_STRING || id == Type::LARGE_BINARY;
            d->buffers.push_back(wrap(1, (n + 1) * (large ? 8 : 4)));
            int64_t total = 0;
            if (a->buffers[1]) total = large ? static_cast<const int64_t*>(a->buffers[1])[n] : static_cast<const int32_t*>(a->buffers[1])[n];
            auto v = wrap(2, total);
            d->buffers.push_back(v ? v : std::make_shared<Buffer>(reinterpret_cast<const uint8_t*>(""), 0));
        } else if (id == Type::LIST || id == Type::MAP) {
            d->buffers.push_back(wrap(1, (n + 1) * 4));
        } else if (id != Type::STRUCT) {
            auto vt = id == Type::DICTIONARY ? static_cast<const DictionaryType&>(*t).index_type() : t;
            d->buffers.push_back(wrap(1, id == Type::BOOL ? bit_util::BytesForBits(n) : n * vt->byte_width()));
        }
    }
    if (a->n_children != t->num_fields()) return Status::Invalid("Expected ", t->num_fields(), " children for imported type ", t->ToString(), ", ArrowArray struct has ", a->n_children);
    for (int64_t i = 0; i < a->n_children; i++) {
        ARROW_ASSIGN_OR_RAISE(auto c, ImportData(a->children[i], t->field(static_cast<int>(i))->type(), o));
        d->child_data.push_back(c);
    }
    if (id == Type::DICTIONARY) {
        ARROW_ASSIGN_OR_RAISE(d->dictionary, ImportData(a->dictionary, static_cast<const DictionaryType&>(*t).value_type(), o));
    }
    return d;
}
struct SchemaGuard {
    ArrowSchema* s;
    ~SchemaGuard() {
        if (s->release) s->release(s);
    }
};
}  // namespace
Status ExportType(const DataType& t, ArrowSchema* out) { return ExportSchemaNode(t, "", true, nullptr, out); }
Status ExportField(const Field& f, ArrowSchema* out) {
    return ExportSchemaNode(*f.type(), f.name(), f.nullable(), f.metadata().get(), out);
}
Status ExportSchema(const Schema& s, ArrowSchema* out) {
    return ExportSchemaNode(StructType(s.fields()), "", false, s.metadata().get(), out);
}
Status ExportArray(const Array& a, ArrowArray* out, ArrowSchema* os) {
    if (os) ARROW_RETURN_NOT_OK(ExportType(*a.type(), os));
    ExportData(a.data(), out);
    return Status::OK();
}
Result<std::shared_ptr<Field>> ImportField(ArrowSchema* s) {
    if (!s->release) return Status::Invalid("Cannot import released ArrowSchema");
    SchemaGuard g{s};
    return ImportNode(s);
}
Result<std::shared_ptr<DataType>> ImportType(ArrowSchema* s) {
    ARROW_ASSIGN_OR_RAISE(auto f, ImportField(s));
    return f->type();
}
Result<std::shared_ptr<Schema>> ImportSchema(ArrowSchema* s) {
    ARROW_ASSIGN_OR_RAISE(auto f, ImportField(s));
    if (f->type()->id() != Type::STRUCT) return Status::Invalid("Cannot import schema: not a struct");
    return schema(f->type()->fields(), f->metadata());
}
Result<std::shared_ptr<Array>> ImportArray(ArrowArray* a, std::shared_ptr<DataType> t) {
    if (!a->release) return Status::Invalid("Cannot import released ArrowArray");
    auto o = std::make_shared<ImportedOwner>();
    ArrowArrayMove(a, &o->a);
    ARROW_ASSIGN_OR_RAISE(auto d, ImportData(&o->a, t, o));
    return MakeArray(d);
}
Result<std::shared_ptr<Array>> ImportArray(ArrowArray* a, ArrowSchema* s) {
    auto t = ImportType(s);
    if (!t.ok()) {
        if (a->release) a->release(a);
        return t.status();
    }
    return ImportArray(a, *t);
}

// ---------------------------------------------------------------- compute
namespace compute {
static bool IsInt(Type::type t) {
    return t == Type::INT8 || t == Type::INT16 || t == Type::INT32 || t == Type::INT64 || t == Type::UINT8 ||
           t == Type::UINT16 || t == Type::UINT32 || t == Type::UINT64 || t == Type::DATE32 || t == Type::TIMESTAMP;
}
static bool IsNum(Type::type t) { return IsInt(t) || t == Type::FLOAT || t == Type::DOUBLE || t == Type::BOOL; }
static bool IsStr(Type::type t) { return t == Type::STRING || t == Type::BINARY; }
bool CanCast(const DataType& f, const DataType& t) {
    if (f.Equals(t)) return true;
    auto a = f.id(), b = t.id();
    return (IsNum(a) && (IsNum(b) || b == Type::STRING)) || (IsStr(a) && (IsStr(b) || IsNum(b)));
}
static bool ReadInt(const Array& a, int64_t i, int64_t* v) {
    switch (a.type_id()) {
#define C(ID, N) case Type::ID: *v = static_cast<int64_t>(static_cast<const N##Array&>(a).Value(i)); return true;
        C(BOOL, Boolean) C(INT8, Int8) C(INT16, Int16) C(INT32, Int32) C(INT64, Int64) C(UINT8, UInt8)
        C(UINT16, UInt16) C(UINT32, UInt32) C(UINT64, UInt64) C(DATE32, Date32) C(TIMESTAMP, Timestamp)
#undef C
        default: return false;
    }
}
template <typename B, typename T>
static Status AppendNum(ArrayBuilder* b, bool is_int, int64_t iv, double dv, const CastOptions& o) {
    using V = typename T::c_type;
    if constexpr (std::is_same_v<V, bool>) {
        return static_cast<B*>(b)->Append(is_int ? iv != 0 : dv != 0);
    } else if constexpr (std::is_floating_point_v<V>) {
        return static_cast<B*>(b)->Append(is_int ? static_cast<V>(iv) : static_cast<V>(dv));
    } else {
        if (!is_int) {
            iv = static_cast<int64_t>(dv);
            if (!o.allow_float_truncate && static_cast<double>(iv) != dv) return Status::Invalid("Float value ", dv, " was truncated");
        }
        V v = static_cast<V>(iv);
        if (!o.allow_int_overflow && static_cast<int64_t>(v) != iv) return Status::Invalid("Integer value ", iv, " not in range");
        return static_cast<B*>(b)->Append(v);
    }
}
Result<std::shared_ptr<Array>> Cast(const Array& a, const TypeHolder& to, const CastOptions& o, ExecContext* ctx) {
    auto t = to.GetSharedPtr();
    if (a.type()->Equals(*t)) return MakeArray(a.data());
    if (!CanCast(*a.type(), *t)) return Status::NotImplemented("Unsupported cast from ", a.type()->ToString(), " to ", t->ToString());
    std::unique_ptr<ArrayBuilder> b;
    ARROW_RETURN_NOT_OK(MakeBuilder(ctx ? ctx->memory_pool() : nullptr, t, &b));
    for (int64_t i = 0; i < a.length(); i++) {
        if (a.IsNull(i)) {
            ARROW_RETURN_NOT_OK(b->AppendNull());
            continue;
        }
        if (IsStr(t->id())) {
            std::string s = IsStr(a.type_id()) ? std::string(static_cast<const BinaryArray&>(a).GetView(i)) : ValStr(a, i);
            ARROW_RETURN_NOT_OK(static_cast<BinaryBuilder*>(b.get())->Append(std::string_view(s)));
            continue;
        }
        int64_t iv = 0;
        double dv = 0;
        bool is_int = ReadInt(a, i, &iv);
        if (!is_int) {
            if (a.type_id() == Type::FLOAT) dv = static_cast<const FloatArray&>(a).Value(i);
            else if (a.type_id() == Type::DOUBLE) dv = static_cast<const DoubleArray&>(a).Value(i);
            else {
                std::string s(static_cast<const BinaryArray&>(a).GetView(i));
                char* e = nullptr;
                iv = strtoll(s.c_str(), &e, 10);
                is_int = true;
                if (s.empty() || *e) {
                    dv = strtod(s.c_str(), &e);
                    is_int = false;
                    if (s.empty() || *e) return Status::Invalid("Failed to parse string: '", s, "'");
                }
            }
        }
        switch (t->id()) {
#define C(ID, N) case Type::ID: ARROW_RETURN_NOT_OK((AppendNum<N##Builder, N##Type>(b.get(), is_int, iv, dv, o))); break;
            C(BOOL, Boolean) C(INT8, Int8) C(INT16, Int16) C(INT32, Int32) C(INT64, Int64) C(UINT8, UInt8)
            C(UINT16, UInt16) C(UINT32, UInt32) C(UINT64, UInt64) C(FLOAT, Float) C(DOUBLE, Double)
            C(DATE32, Date32) C(TIMESTAMP, Timestamp)
#undef C
            default: return Status::NotImplemented("cast");
        }
    }
    return b->Finish();
}
Result<Datum> Cast(const Datum& v, const TypeHolder& to, const CastOptions& o, ExecContext* ctx) {
    if (v.is_scalar()) {
        ARROW_ASSIGN_OR_RAISE(auto a, MakeArrayFromScalar(*v.scalar(), 1));
        ARROW_ASSIGN_OR_RAISE(auto r, Cast(*a, to, o, ctx));
        ARROW_ASSIGN_OR_RAISE(auto s, r->GetScalar(0));
        return Datum(s);
    }
    ARROW_ASSIGN_OR_RAISE(auto r, Cast(*v.make_array(), to, o, ctx));
    return Datum(r);
}
static Result<Datum> Retype(const Datum& v, const std::string& tz) {
    if (v.is_scalar()) {
        auto& s = static_cast<const TimestampScalar&>(*v.scalar());
        return Datum(std::shared_ptr<Scalar>(std::make_shared<TimestampScalar>(
            s.value, timestamp(static_cast<const TimestampType&>(*s.type).unit(), tz))));
    }
    auto a = v.make_array();
    ARROW_ASSIGN_OR_RAISE(auto r, a->View(timestamp(static_cast<const TimestampType&>(*a->type()).unit(), tz)));
    return Datum(r);
}
Result<Datum> LocalTimestamp(const Datum& v, ExecContext*) { return Retype(v, ""); }
Result<Datum> AssumeTimezone(const Datum& v, AssumeTimezoneOptions o, ExecContext*) { return Retype(v, o.timezone); }

static int CmpVal(const Array& a, int64_t i, int64_t j) {
    int64_t x, y;
    if (ReadInt(a, i, &x)) {
        ReadInt(a, j, &y);
        return x < y ? -1 : x > y;
    }
    switch (a.type_id()) {
        case Type::FLOAT: { auto p = static_cast<const FloatArray&>(a).Value(i), q = static_cast<const FloatArray&>(a).Value(j); return p < q ? -1 : p > q; }
        case Type::DOUBLE: { auto p = static_cast<const DoubleArray&>(a).Value(i), q = static_cast<const DoubleArray&>(a).Value(j); return p < q ? -1 : p > q; }
        case Type::DECIMAL128: {
            Decimal128 p(static_cast<const Decimal128Array&>(a).GetValue(i)), q(static_cast<const Decimal128Array&>(a).GetValue(j));
            return p < q ? -1 : p > q;
        }
        case Type::STRING: case Type::BINARY:
            return static_cast<const BinaryArray&>(a).GetView(i).compare(static_cast<const BinaryArray&>(a).GetView(j));
        default: return 0;
    }
}
Result<std::shared_ptr<Array>> SortIndices(const Datum& v, const SortOptions& o, ExecContext* ctx) {
    auto arr = v.make_array();
    std::vector<uint64_t> idx(arr->length());
    std::iota(idx.begin(), idx.end(), 0);
    auto* s = dynamic_cast<StructArray*>(arr.get());
    std::vector<std::shared_ptr<Array>> cols;
    for (auto& k : o.keys) {
        auto c = s ? s->GetFieldByName(k.name) : nullptr;
        if (!c) return Status::Invalid("No match for sort key ", k.name);
        cols.push_back(c);
    }
    std::stable_sort(idx.begin(), idx.end(), [&](uint64_t a, uint64_t b) {
        for (size_t c = 0; c < cols.size(); c++) {
            bool na = cols[c]->IsNull(a), nb = cols[c]->IsNull(b);
            if (na || nb) {
                if (na == nb) continue;
                return o.placement == NullPlacement::AtStart ? na : nb;
            }
            int r = CmpVal(*cols[c], a, b);
            if (r) return o.keys[c].order == SortOrder::Ascending ? r < 0 : r > 0;
        }
        return false;
    });
    UInt64Builder b(ctx ? ctx->memory_pool() : nullptr);
    ARROW_RETURN_NOT_OK(b.AppendValues(idx));
    return b.Finish();
}
}  // namespace compute
}  // namespace arrow
