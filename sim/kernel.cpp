#include "kernel.h"

#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

#include <memory>
#include <set>

#include "dst.h"

extern "C" FILE* dst_uuid_file(const char* path);

namespace pk {

Rates g_rates;
int g_fault_budget = 1 << 30;
bool g_noreplace = true;

namespace {

enum Kind { kFile, kDir, kLink };
struct Inode {
    uint64_t ino = 0;
    Kind kind = kFile;
    std::string data;    // what the kernel has
    std::string synced;  // what the medium has
    std::string target;
    std::map<std::string, uint64_t> ent;
    int64_t mtime_us = 0;
};
// Namespace changes in order, for power loss.
struct Meta {
    enum { kAdd, kDel, kMove } op;
    uint64_t dir, ino, dir2;
    std::string name, name2;
    Kind kind;
    std::string target;
};
struct Fd {
    uint64_t ino;
    int64_t pos = 0;
    int flags = 0;
    bool dirty = false;
};
struct Dir {
    std::vector<std::string> names;
    size_t at = 0;
    int fd;
    struct dirent ent;
};

bool g_on = false;
bool g_fsync_meta = false;
std::map<uint64_t, std::shared_ptr<Inode>>* g_ino;
std::map<int, Fd>* g_fd;
std::set<Dir*>* g_dirs;
std::map<FILE*, int>* g_files;
std::vector<Meta>* g_meta;
size_t g_meta_durable;
uint64_t g_next_ino;
int g_next_fd;
uint64_t g_calls, g_faults, g_shorts;
std::map<std::string, uint64_t>* g_fault_kinds;
uint64_t g_crash_at;
bool g_crashed;
int64_t g_used;
const uint64_t kRoot = 1;
const int kFdBase = 100000;

template <class F>
F Real(const char* name) {
    return reinterpret_cast<F>(dlsym(RTLD_NEXT, name));
}

Inode& I(uint64_t i) { return *g_ino->at(i); }
uint64_t NewInode(Kind k) {
    auto n = std::make_shared<Inode>();
    n->ino = ++g_next_ino;
    n->kind = k;
    n->mtime_us = dst::NowUs();
    (*g_ino)[n->ino] = n;
    return n->ino;
}

std::vector<std::string> Split(const std::string& p) {
    std::vector<std::string> v;
    size_t i = 0;
    while (i < p.size()) {
        while (i < p.size() && p[i] == '/') ++i;
        size_t j = i;
        while (j < p.size() && p[j] != '/') ++j;
        if (j > i) v.push_back(p.substr(i, j - i));
        i = j;
    }
    return v;
}

struct Where {
    uint64_t parent = 0;  // 0: no such parent
    std::string name;     // last component ("" for the root)
    uint64_t ino = 0;     // 0: absent
    bool slash = false;   // trailing slash
};
// Resolves like the kernel. Returns 0 or an errno (for a missing or unusable prefix).
int Walk(const std::string& path, bool follow_last, Where* w, int depth = 0) {
    if (path.empty()) return ENOENT;
    if (depth > 8) return ELOOP;
    if (path.size() > 4000) return ENAMETOOLONG;
    w->slash = path.size() > 1 && path.back() == '/';
    auto parts = Split(path);  // relative paths start at the root
    uint64_t cur = kRoot;
    std::string sofar;
    w->parent = kRoot;
    w->name = "";
    w->ino = kRoot;
    std::vector<uint64_t> up{kRoot};
    for (size_t k = 0; k < parts.size(); ++k) {
        bool last = k + 1 == parts.size();
        Inode& d = I(cur);
        if (d.kind != kDir) return ENOTDIR;
        if (parts[k].size() > 255) return ENAMETOOLONG;
        if (parts[k] == ".") continue;
        if (parts[k] == "..") {
            if (up.size() > 1) up.pop_back();
            cur = up.back();
            w->parent = cur;
            w->name = "";
            w->ino = cur;
            continue;
        }
        auto it = d.ent.find(parts[k]);
        if (it == d.ent.end()) {
            if (!last) return ENOENT;
            w->parent = cur;
            w->name = parts[k];
            w->ino = 0;
            return 0;
        }
        Inode& n = I(it->second);
        if (n.kind == kLink && (!last || follow_last || w->slash)) {
            std::string rest = n.target;
            for (size_t j = k + 1; j < parts.size(); ++j) rest += "/" + parts[j];
            if (w->slash) rest += "/";
            return Walk(rest, follow_last, w, depth + 1);
        }
        w->parent = cur;
        w->name = parts[k];
        w->ino = it->second;
        cur = it->second;
        up.push_back(cur);
    }
    if (w->slash && w->ino && I(w->ino).kind == kFile) return ENOTDIR;
    return 0;
}

// Every simulated call passes here. True: fail with errno (already set).
bool Enter(const char* kind, const char* path, double rate, std::initializer_list<int> errs) {
    dst::Yield(kind);
    dst::AdvanceUs(5 + static_cast<int64_t>(dst::Aux() % 200));
    ++g_calls;
    if (!g_crashed && g_crash_at && g_calls >= g_crash_at) {
        g_crashed = true;
        dst::Log("crash at %s %s", kind, path);
    }
    if (g_crashed) {
        errno = EIO;
        return true;
    }
    if (rate > 0 && g_fault_budget > 0) {
        uint64_t c = dst::Choose("fault", errs.size() + 1, rate);
        if (c > 0) {
            int e = *(errs.begin() + (c - 1));
            --g_fault_budget;
            ++g_faults;
            ++(*g_fault_kinds)[kind];
            dst::Fault((std::string(kind) + "_error").c_str());
            dst::Log("fault %s %s: %s", kind, path, strerror(e));
            errno = e;
            return true;
        }
    }
    dst::Log("%s %s", kind, path);
    return false;
}
int Fail(int e) {
    errno = e;
    return -1;
}

void MetaAdd(uint64_t dir, const std::string& name, uint64_t ino) {
    Meta m;
    m.op = Meta::kAdd;
    m.dir = dir;
    m.ino = ino;
    m.name = name;
    m.kind = I(ino).kind;
    m.target = I(ino).target;
    g_meta->push_back(m);
    I(dir).mtime_us = dst::NowUs();
}
void MetaDel(uint64_t dir, const std::string& name) {
    Meta m;
    m.op = Meta::kDel;
    m.dir = dir;
    m.ino = 0;
    m.name = name;
    g_meta->push_back(m);
    I(dir).mtime_us = dst::NowUs();
}

// ---- the calls themselves (paths are simulated)
int DoOpen(const char* path, int flags) {
    if (Enter("open", path, g_rates.open, {EIO, EMFILE, EACCES, ENOSPC})) return -1;
    Where w;
    bool creat = flags & O_CREAT;
    int e = Walk(path, !((flags & O_CREAT) && (flags & O_EXCL)), &w);
    if (e) return Fail(e);
    int acc = flags & O_ACCMODE;
    if (w.ino) {
        if (creat && (flags & O_EXCL)) return Fail(EEXIST);
        Inode& n = I(w.ino);
        if (n.kind == kDir && (acc != O_RDONLY || creat)) return Fail(EISDIR);
        if ((flags & O_DIRECTORY) && n.kind != kDir) return Fail(ENOTDIR);
        if ((flags & O_TRUNC) && n.kind == kFile && acc != O_RDONLY) {
            g_used -= static_cast<int64_t>(n.data.size());
            n.data.clear();
            n.mtime_us = dst::NowUs();
        }
    } else {
        if (!creat) return Fail(ENOENT);
        if (w.slash) return Fail(EISDIR);
        w.ino = NewInode(kFile);
        I(w.parent).ent[w.name] = w.ino;
        MetaAdd(w.parent, w.name, w.ino);
    }
    Fd f;
    f.ino = w.ino;
    f.flags = flags;
    int fd = kFdBase + g_next_fd++;
    (*g_fd)[fd] = f;
    return fd;
}
const char* NameOf(int fd) {
    static char buf[64];
    auto it = g_fd->find(fd);
    snprintf(buf, sizeof buf, "inode %llu", it == g_fd->end() ? 0ull : (unsigned long long)it->second.ino);
    return buf;
}
ssize_t DoRead(int fd, void* b, size_t n, int64_t off, bool positional) {
    if (Enter("read", NameOf(fd), g_rates.read, {EIO, EIO, EINTR})) return -1;
    auto it = g_fd->find(fd);
    if (it == g_fd->end()) return Fail(EBADF);
    if ((it->second.flags & O_ACCMODE) == O_WRONLY) return Fail(EBADF);
    Inode& i = I(it->second.ino);
    if (i.kind == kDir) return Fail(EISDIR);
    int64_t p = positional ? off : it->second.pos;
    if (p < 0) return Fail(EINVAL);
    size_t have = p >= static_cast<int64_t>(i.data.size()) ? 0 : i.data.size() - p;
    size_t m = std::min(n, have);
    if (m > 1 && g_rates.short_io > 0) {
        uint64_t c = dst::Choose("short", m, g_rates.short_io);
        if (c > 0) {
            m = c;
            ++g_shorts;
            dst::Fault("short_read");
        }
    }
    memcpy(b, i.data.data() + p, m);
    if (!positional) it->second.pos += m;
    return m;
}
ssize_t DoWrite(int fd, const void* b, size_t n, int64_t off, bool positional) {
    if (Enter("write", NameOf(fd), g_rates.write, {EIO, ENOSPC, EDQUOT, EINTR})) return -1;
    auto it = g_fd->find(fd);
    if (it == g_fd->end()) return Fail(EBADF);
    if ((it->second.flags & O_ACCMODE) == O_RDONLY) return Fail(EBADF);
    Inode& i = I(it->second.ino);
    if (it->second.flags & O_APPEND) it->second.pos = i.data.size();
    int64_t p = positional ? off : it->second.pos;
    size_t m = n;
    if (m > 1 && g_rates.short_io > 0) {
        uint64_t c = dst::Choose("short", m, g_rates.short_io);
        if (c > 0) {
            m = c;
            ++g_shorts;
            dst::Fault("short_write");
        }
    }
    if (g_rates.capacity >= 0) {
        int64_t grow = std::max<int64_t>(0, p + static_cast<int64_t>(m) - static_cast<int64_t>(i.data.size()));
        int64_t room = g_rates.capacity - g_used;
        if (grow > room) {
            m -= std::min<int64_t>(m, grow - std::max<int64_t>(room, 0));
            dst::Fault("disk_full");
            if (m == 0) {
                ++g_faults;
                ++(*g_fault_kinds)["write"];
                return Fail(ENOSPC);
            }
        }
    }
    if (p + m > i.data.size()) {
        g_used += static_cast<int64_t>(p + m - i.data.size());
        i.data.resize(p + m, '\0');
    }
    memcpy(&i.data[p], b, m);
    i.mtime_us = dst::NowUs();
    it->second.dirty = true;
    if (!positional) it->second.pos += m;
    return m;
}
int DoClose(int fd) {
    auto it = g_fd->find(fd);
    if (it == g_fd->end()) return Fail(EBADF);
    // the descriptor is gone whatever close() answers
    Fd f = it->second;
    bool err = Enter("close", NameOf(fd), g_rates.close, {EIO, ENOSPC});
    g_fd->erase(fd);
    if (err) {
        int e = errno;
        if (!g_crashed && f.dirty) {
            // write-back at close failed: what was not synced is lost
            Inode& i = I(f.ino);
            g_used -= static_cast<int64_t>(i.data.size()) - static_cast<int64_t>(i.synced.size());
            i.data = i.synced;
        }
        return Fail(e);
    }
    return 0;
}
int DoSync(int fd) {
    if (Enter("sync", NameOf(fd), g_rates.sync, {EIO, ENOSPC})) return -1;
    auto it = g_fd->find(fd);
    if (it == g_fd->end()) return Fail(EBADF);
    Inode& i = I(it->second.ino);
    i.synced = i.data;
    it->second.dirty = false;
    if (g_fsync_meta || i.kind == kDir) g_meta_durable = g_meta->size();
    return 0;
}
void FillStat(uint64_t ino, struct stat* st) {
    Inode& i = I(ino);
    memset(st, 0, sizeof *st);
    st->st_ino = ino;
    st->st_dev = 7;
    st->st_nlink = 1;
    st->st_mode = i.kind == kDir ? (S_IFDIR | 0755) : i.kind == kLink ? (S_IFLNK | 0777) : (S_IFREG | 0644);
    st->st_size = i.kind == kFile ? i.data.size() : i.kind == kLink ? i.target.size() : 4096;
    st->st_blksize = 4096;
    st->st_blocks = (st->st_size + 511) / 512;
    st->st_mtim.tv_sec = i.mtime_us / 1000000;
    st->st_mtim.tv_nsec = (i.mtime_us % 1000000) * 1000;
    st->st_ctim = st->st_mtim;
    st->st_atim = st->st_mtim;
}
int DoStat(const char* path, struct stat* st, bool follow) {
    if (Enter("stat", path, g_rates.stat, {EIO, EACCES})) return -1;
    Where w;
    int e = Walk(path, follow, &w);
    if (e) return Fail(e);
    if (!w.ino) return Fail(ENOENT);
    FillStat(w.ino, st);
    return 0;
}
int DoAccess(const char* path) {
    if (Enter("access", path, g_rates.access, {EIO, EACCES})) return -1;
    Where w;
    int e = Walk(path, true, &w);
    if (e) return Fail(e);
    if (!w.ino) return Fail(ENOENT);
    return 0;
}
int DoMkdir(const char* path) {
    if (Enter("mkdir", path, g_rates.mkdir, {EIO, ENOSPC, EACCES})) return -1;
    Where w;
    int e = Walk(path, false, &w);
    if (e) return Fail(e);
    if (w.ino) return Fail(EEXIST);
    uint64_t n = NewInode(kDir);
    I(w.parent).ent[w.name] = n;
    MetaAdd(w.parent, w.name, n);
    return 0;
}
int DoUnlink(const char* path, int what) {  // 0 unlink, 1 rmdir, 2 remove
    if (Enter("unlink", path, g_rates.unlink, {EIO, EACCES, EBUSY})) return -1;
    Where w;
    int e = Walk(path, false, &w);
    if (e) return Fail(e);
    if (!w.ino) return Fail(ENOENT);
    if (w.ino == kRoot || w.name.empty()) return Fail(EBUSY);
    Inode& n = I(w.ino);
    if (n.kind == kDir) {
        if (what == 0) return Fail(EISDIR);
        if (!n.ent.empty()) return Fail(ENOTEMPTY);
    } else if (what == 1) {
        return Fail(ENOTDIR);
    }
    if (n.kind == kFile) g_used -= static_cast<int64_t>(n.data.size());
    I(w.parent).ent.erase(w.name);
    MetaDel(w.parent, w.name);
    return 0;
}
bool Below(uint64_t top, uint64_t x) {
    if (top == x) return true;
    for (auto& e : I(top).ent)
        if (I(e.second).kind == kDir && Below(e.second, x)) return true;
    return false;
}
int DoRename(const char* a, const char* b, unsigned flags) {
    if (Enter("rename", (std::string(a) + " -> " + b).c_str(), g_rates.rename, {EIO, ENOSPC, EACCES})) return -1;
    if ((flags & 1) && !g_noreplace) return Fail(EINVAL);
    if (flags & ~1u) return Fail(EINVAL);
    Where x, y;
    int e = Walk(a, false, &x);
    if (e) return Fail(e);
    e = Walk(b, false, &y);
    if (e) return Fail(e);
    if (!x.ino) return Fail(ENOENT);
    if (x.ino == kRoot || x.name.empty() || (y.ino && y.name.empty())) return Fail(EBUSY);
    Inode& n = I(x.ino);
    if (n.kind != kDir && (y.slash || x.slash)) return Fail(ENOTDIR);
    if (y.ino && (flags & 1)) return Fail(EEXIST);
    if (n.kind == kDir && Below(x.ino, y.parent)) return Fail(EINVAL);
    if (x.ino == y.ino) return 0;
    if (y.ino) {
        Inode& o = I(y.ino);
        if (n.kind == kDir && o.kind != kDir) return Fail(ENOTDIR);
        if (n.kind != kDir && o.kind == kDir) return Fail(EISDIR);
        if (o.kind == kDir && !o.ent.empty()) return Fail(ENOTEMPTY);
        if (o.kind == kFile) g_used -= static_cast<int64_t>(o.data.size());
    }
    I(x.parent).ent.erase(x.name);
    I(y.parent).ent[y.name] = x.ino;
    Meta m;
    m.op = Meta::kMove;
    m.dir = x.parent;
    m.name = x.name;
    m.dir2 = y.parent;
    m.name2 = y.name;
    m.ino = x.ino;
    g_meta->push_back(m);
    I(x.parent).mtime_us = I(y.parent).mtime_us = dst::NowUs();
    return 0;
}
int DoLink(const char* a, const char* b) {
    if (Enter("rename", (std::string(a) + " => " + b).c_str(), g_rates.rename, {EIO, ENOSPC, EACCES})) return -1;
    Where x, y;
    int e = Walk(a, false, &x);
    if (e) return Fail(e);
    e = Walk(b, false, &y);
    if (e) return Fail(e);
    if (!x.ino) return Fail(ENOENT);
    if (y.ino) return Fail(EEXIST);
    if (I(x.ino).kind == kDir) return Fail(EPERM);
    I(y.parent).ent[y.name] = x.ino;
    MetaAdd(y.parent, y.name, x.ino);
    return 0;
}

// ---- stdio on simulated descriptors
ssize_t CkRead(void* c, char* b, size_t n) { return DoRead(static_cast<int>(reinterpret_cast<intptr_t>(c)), b, n, 0, false); }
ssize_t CkWrite(void* c, const char* b, size_t n) {
    // glibc's file streams call write() until everything is written
    int fd = static_cast<int>(reinterpret_cast<intptr_t>(c));
    size_t done = 0;
    while (done < n) {
        ssize_t r = DoWrite(fd, b + done, n - done, 0, false);
        if (r < 0) break;
        done += r;
    }
    return done;
}
int64_t DoSeek(int fd, int64_t off, int whence) {
    if (Enter("seek", NameOf(fd), g_rates.seek, {EIO})) return -1;
    auto it = g_fd->find(fd);
    if (it == g_fd->end()) return Fail(EBADF);
    int64_t base = whence == SEEK_SET ? 0 : whence == SEEK_CUR ? it->second.pos : static_cast<int64_t>(I(it->second.ino).data.size());
    int64_t p = base + off;
    if (p < 0) return Fail(EINVAL);
    it->second.pos = p;
    return p;
}
int CkSeek(void* c, off64_t* off, int whence) {
    int64_t p = DoSeek(static_cast<int>(reinterpret_cast<intptr_t>(c)), *off, whence);
    if (p < 0) return -1;
    *off = p;
    return 0;
}
int CkClose(void* c) {
    int fd = static_cast<int>(reinterpret_cast<intptr_t>(c));
    for (auto it = g_files->begin(); it != g_files->end(); ++it) {
        if (it->second == fd) {
            g_files->erase(it);
            break;
        }
    }
    return DoClose(fd);
}
FILE* MakeFile(int fd, const char* mode) {
    cookie_io_functions_t io = {CkRead, CkWrite, CkSeek, CkClose};
    FILE* f = fopencookie(reinterpret_cast<void*>(static_cast<intptr_t>(fd)), mode, io);
    if (!f) dst::HarnessError("fopencookie");
    (*g_files)[f] = fd;
    return f;
}
FILE* DoFopen(const char* path, const char* mode) {
    int flags = 0;
    bool plus = strchr(mode, '+') != nullptr;
    switch (mode[0]) {
        case 'r': flags = plus ? O_RDWR : O_RDONLY; break;
        case 'w': flags = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_TRUNC; break;
        case 'a': flags = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_APPEND; break;
        default: errno = EINVAL; return nullptr;
    }
    if (strchr(mode, 'x')) flags |= O_EXCL;
    int fd = DoOpen(path, flags);
    if (fd < 0) return nullptr;
    std::string m(1, mode[0]);
    if (plus) m += "+";
    return MakeFile(fd, m.c_str());
}

uint64_t Lookup(const std::string& path) {
    Where w;
    if (Walk(path, false, &w)) return 0;
    return w.ino;
}
bool RealPath(const char* p) {
    // read-only system files the runtime itself may open
    for (const char* d : {"/proc/", "/sys/", "/dev/", "/etc/", "/usr/", "/lib/", "/lib64/"})
        if (!strncmp(p, d, strlen(d))) return true;
    return false;
}
bool IsSim(const char* p) { return g_on && p && !RealPath(p); }
bool IsSimFd(int fd) { return g_on && fd >= kFdBase; }
// Changing calls never reach anything real while the simulation is on.
bool Outside(const char* p) {
    if (g_on && p && RealPath(p)) {
        errno = EROFS;
        return true;
    }
    return false;
}
void DumpRec(uint64_t ino, const std::string& path, std::map<std::string, std::string>* out) {
    for (auto& e : I(ino).ent) {
        Inode& n = I(e.second);
        std::string p = path + "/" + e.first;
        (*out)[p] = n.kind == kDir ? "D" : n.kind == kLink ? "L" + n.target : "F" + n.data;
        if (n.kind == kDir) DumpRec(e.second, p, out);
    }
}

}  // namespace

void On(bool fsync_commits_namespace) {
    g_ino = new std::map<uint64_t, std::shared_ptr<Inode>>();
    g_fd = new std::map<int, Fd>();
    g_dirs = new std::set<Dir*>();
    g_files = new std::map<FILE*, int>();
    g_meta = new std::vector<Meta>();
    g_fault_kinds = new std::map<std::string, uint64_t>();
    g_meta_durable = 0;
    g_next_ino = 0;
    g_next_fd = 0;
    g_calls = g_faults = g_shorts = g_crash_at = 0;
    g_crashed = false;
    g_used = 0;
    g_fsync_meta = fsync_commits_namespace;
    NewInode(kDir);
    g_on = true;
}
void Off() { g_on = false; }

void PutDir(const std::string& path) {
    std::string sofar;
    for (auto& p : Split(path)) {
        uint64_t d = sofar.empty() ? kRoot : Lookup(sofar);
        sofar += "/" + p;
        if (Lookup(sofar)) continue;
        uint64_t n = NewInode(kDir);
        I(d).ent[p] = n;
        MetaAdd(d, p, n);
    }
    g_meta_durable = g_meta->size();
}
static std::string ParentOf(const std::string& path) { return path.substr(0, path.rfind('/')); }
void PutFile(const std::string& path, const std::string& content) {
    PutDir(ParentOf(path));
    uint64_t n = Lookup(path);
    if (!n) {
        uint64_t d = ParentOf(path).empty() ? kRoot : Lookup(ParentOf(path));
        n = NewInode(kFile);
        I(d).ent[path.substr(path.rfind('/') + 1)] = n;
        MetaAdd(d, path.substr(path.rfind('/') + 1), n);
    }
    g_used += static_cast<int64_t>(content.size()) - static_cast<int64_t>(I(n).data.size());
    I(n).data = I(n).synced = content;
    g_meta_durable = g_meta->size();
}
void PutLink(const std::string& path, const std::string& target) {
    PutDir(ParentOf(path));
    uint64_t d = Lookup(ParentOf(path));
    uint64_t n = NewInode(kLink);
    I(n).target = target;
    I(d).ent[path.substr(path.rfind('/') + 1)] = n;
    MetaAdd(d, path.substr(path.rfind('/') + 1), n);
    g_meta_durable = g_meta->size();
}
std::map<std::string, std::string> Dump() {
    std::map<std::string, std::string> m;
    DumpRec(kRoot, "", &m);
    return m;
}
bool Get(const std::string& path, std::string* c) {
    uint64_t n = Lookup(path);
    if (!n) return false;
    Inode& i = I(n);
    *c = i.kind == kDir ? "D" : i.kind == kLink ? "L" + i.target : "F" + i.data;
    return true;
}
bool Synced(const std::string& path, std::string* c) {
    uint64_t n = Lookup(path);
    if (!n) return false;
    *c = I(n).synced;
    return true;
}
int64_t MtimeMs(const std::string& path) {
    uint64_t n = Lookup(path);
    return n ? I(n).mtime_us / 1000 : -1;
}
uint64_t Faults() { return g_faults; }
uint64_t FaultsOf(const char* kind) {
    auto it = g_fault_kinds->find(kind);
    return it == g_fault_kinds->end() ? 0 : it->second;
}
uint64_t Shorts() { return g_shorts; }
uint64_t Calls() { return g_calls; }
int OpenHandles() { return static_cast<int>(g_fd->size() + g_dirs->size()); }
void CrashAfter(uint64_t n) { g_crash_at = g_calls + n; }
bool Crashed() { return g_crashed; }

void Restart(bool power_loss) {
    g_crashed = false;
    g_crash_at = 0;
    g_fd->clear();
    if (!power_loss) return;
    // the namespace: some prefix of the changes, at least the durable ones
    size_t cut = g_meta_durable + dst::Pick("cut", g_meta->size() - g_meta_durable + 1);
    std::map<uint64_t, std::shared_ptr<Inode>> old = *g_ino;
    for (auto& e : *g_ino) e.second->ent.clear();
    std::set<uint64_t> seen;
    for (size_t i = 0; i < cut; ++i) {
        Meta& m = (*g_meta)[i];
        if (m.op == Meta::kAdd) {
            I(m.dir).ent[m.name] = m.ino;
        } else if (m.op == Meta::kDel) {
            I(m.dir).ent.erase(m.name);
        } else {
            I(m.dir).ent.erase(m.name);
            I(m.dir2).ent[m.name2] = m.ino;
        }
    }
    g_meta->resize(cut);
    g_meta_durable = cut;
    for (auto& e : *g_ino) {
        Inode& n = *e.second;
        if (n.kind != kFile || n.data == n.synced) continue;
        switch (dst::Pick("torn", 4)) {
            case 0: n.data = n.synced; break;
            case 1: break;  // written back in time
            case 2:         // only the first bytes were written back
                n.data = n.data.substr(0, dst::Pick("tear", n.data.size() + 1));
                break;
            default: {  // the size was, the bytes were not
                size_t keep = 0;
                while (keep < n.data.size() && keep < n.synced.size() && n.data[keep] == n.synced[keep]) ++keep;
                n.data = n.data.substr(0, keep) + std::string(n.data.size() - keep, '\0');
            }
        }
        n.synced = n.data;
        dst::Fault("torn_or_lost_write");
    }
}

}  // namespace pk

using namespace pk;

// ---------------------------------------------------------------- libc
extern "C" {

FILE* fopen(const char* path, const char* mode) {
    if (FILE* f = dst_uuid_file(path)) return f;
    if (IsSim(path)) return DoFopen(path, mode);
    if (g_on && mode[0] != 'r' && Outside(path)) return nullptr;
    return Real<FILE* (*)(const char*, const char*)>("fopen")(path, mode);
}
FILE* fopen64(const char* path, const char* mode) { return fopen(path, mode); }
FILE* fdopen(int fd, const char* mode) {
    if (IsSimFd(fd)) return MakeFile(fd, mode);
    return Real<FILE* (*)(int, const char*)>("fdopen")(fd, mode);
}
int fileno(FILE* f) {
    if (g_on) {
        auto it = g_files->find(f);
        if (it != g_files->end()) return it->second;
    }
    return Real<int (*)(FILE*)>("fileno")(f);
}
int fileno_unlocked(FILE* f) { return fileno(f); }
static int OpenAny(const char* path, int flags, mode_t mode) {
    if (IsSim(path)) return DoOpen(path, flags);
    if (g_on && (flags & (O_CREAT | O_TRUNC | O_WRONLY | O_RDWR)) && Outside(path)) return -1;
    return static_cast<int>(syscall(SYS_openat, AT_FDCWD, path, flags, mode));
}
#define MODE_ARG                          \
    mode_t mode = 0;                      \
    if (flags & (O_CREAT | O_TMPFILE)) {  \
        va_list ap;                       \
        va_start(ap, flags);              \
        mode = va_arg(ap, mode_t);        \
        va_end(ap);                       \
    }
int open(const char* path, int flags, ...) {
    MODE_ARG;
    return OpenAny(path, flags, mode);
}
int open64(const char* path, int flags, ...) {
    MODE_ARG;
    return OpenAny(path, flags, mode);
}
int creat(const char* path, mode_t mode) { return OpenAny(path, O_CREAT | O_WRONLY | O_TRUNC, mode); }
int openat(int dfd, const char* path, int flags, ...) {
    MODE_ARG;
    if (g_on && (dfd == AT_FDCWD || path[0] == '/')) return OpenAny(path, flags, mode);
    return static_cast<int>(syscall(SYS_openat, dfd, path, flags, mode));
}
int close(int fd) {
    if (IsSimFd(fd)) return DoClose(fd);
    return static_cast<int>(syscall(SYS_close, fd));
}
ssize_t read(int fd, void* b, size_t n) {
    if (IsSimFd(fd)) return DoRead(fd, b, n, 0, false);
    return syscall(SYS_read, fd, b, n);
}
ssize_t write(int fd, const void* b, size_t n) {
    if (IsSimFd(fd)) return DoWrite(fd, b, n, 0, false);
    return syscall(SYS_write, fd, b, n);
}
ssize_t pread(int fd, void* b, size_t n, off_t off) {
    if (IsSimFd(fd)) return DoRead(fd, b, n, off, true);
    return syscall(SYS_pread64, fd, b, n, off);
}
ssize_t pread64(int fd, void* b, size_t n, off64_t off) { return pread(fd, b, n, off); }
ssize_t pwrite(int fd, const void* b, size_t n, off_t off) {
    if (IsSimFd(fd)) return DoWrite(fd, b, n, off, true);
    return syscall(SYS_pwrite64, fd, b, n, off);
}
ssize_t pwrite64(int fd, const void* b, size_t n, off64_t off) { return pwrite(fd, b, n, off); }
off_t lseek(int fd, off_t off, int whence) {
    if (IsSimFd(fd)) return DoSeek(fd, off, whence);
    return syscall(SYS_lseek, fd, off, whence);
}
off64_t lseek64(int fd, off64_t off, int whence) { return lseek(fd, off, whence); }
int fsync(int fd) {
    if (IsSimFd(fd)) return DoSync(fd);
    return static_cast<int>(syscall(SYS_fsync, fd));
}
int fdatasync(int fd) {
    if (IsSimFd(fd)) return DoSync(fd);
    return static_cast<int>(syscall(SYS_fdatasync, fd));
}
int ftruncate(int fd, off_t len) {
    if (IsSimFd(fd)) {
        if (Enter("write", NameOf(fd), g_rates.write, {EIO, ENOSPC})) return -1;
        I(g_fd->at(fd).ino).data.resize(len, '\0');
        return 0;
    }
    return static_cast<int>(syscall(SYS_ftruncate, fd, len));
}
int access(const char* path, int mode) {
    if (IsSim(path)) return DoAccess(path);
    return static_cast<int>(syscall(SYS_access, path, mode));
}
int faccessat(int dfd, const char* path, int mode, int flags) {
    if (IsSim(path)) return DoAccess(path);
    return static_cast<int>(syscall(SYS_faccessat, dfd, path, mode, flags));
}
int stat(const char* path, struct stat* st) {
    if (IsSim(path)) return DoStat(path, st, true);
    return static_cast<int>(syscall(SYS_stat, path, st));
}
int stat64(const char* path, struct stat64* st) { return stat(path, reinterpret_cast<struct stat*>(st)); }
int lstat(const char* path, struct stat* st) {
    if (IsSim(path)) return DoStat(path, st, false);
    return static_cast<int>(syscall(SYS_lstat, path, st));
}
int lstat64(const char* path, struct stat64* st) { return lstat(path, reinterpret_cast<struct stat*>(st)); }
int fstat(int fd, struct stat* st) {
    if (IsSimFd(fd)) {
        if (Enter("stat", NameOf(fd), g_rates.stat, {EIO})) return -1;
        auto it = g_fd->find(fd);
        if (it == g_fd->end()) return Fail(EBADF);
        FillStat(it->second.ino, st);
        return 0;
    }
    return static_cast<int>(syscall(SYS_fstat, fd, st));
}
int fstat64(int fd, struct stat64* st) { return fstat(fd, reinterpret_cast<struct stat*>(st)); }
int fstatat(int dfd, const char* path, struct stat* st, int flags) {
    if (IsSim(path) && (dfd == AT_FDCWD || path[0] == '/')) return DoStat(path, st, !(flags & AT_SYMLINK_NOFOLLOW));
    return static_cast<int>(syscall(SYS_newfstatat, dfd, path, st, flags));
}
int fstatat64(int dfd, const char* path, struct stat64* st, int flags) {
    return fstatat(dfd, path, reinterpret_cast<struct stat*>(st), flags);
}
int mkdir(const char* path, mode_t mode) {
    if (IsSim(path)) return DoMkdir(path);
    if (Outside(path)) return -1;
    return static_cast<int>(syscall(SYS_mkdir, path, mode));
}
int mkdirat(int dfd, const char* path, mode_t mode) {
    if (IsSim(path)) return DoMkdir(path);
    if (Outside(path)) return -1;
    return static_cast<int>(syscall(SYS_mkdirat, dfd, path, mode));
}
int unlink(const char* path) {
    if (IsSim(path)) return DoUnlink(path, 0);
    if (Outside(path)) return -1;
    return static_cast<int>(syscall(SYS_unlink, path));
}
int unlinkat(int dfd, const char* path, int flags) {
    if (IsSim(path)) return DoUnlink(path, (flags & AT_REMOVEDIR) ? 1 : 0);
    if (Outside(path)) return -1;
    return static_cast<int>(syscall(SYS_unlinkat, dfd, path, flags));
}
int rmdir(const char* path) {
    if (IsSim(path)) return DoUnlink(path, 1);
    if (Outside(path)) return -1;
    return static_cast<int>(syscall(SYS_rmdir, path));
}
int remove(const char* path) {
    if (IsSim(path)) return DoUnlink(path, 2);
    if (Outside(path)) return -1;
    return Real<int (*)(const char*)>("remove")(path);
}
int rename(const char* a, const char* b) {
    if (IsSim(a) && IsSim(b)) return DoRename(a, b, 0);
    if (Outside(a) || Outside(b)) return -1;
    return static_cast<int>(syscall(SYS_rename, a, b));
}
int renameat(int d1, const char* a, int d2, const char* b) {
    if (IsSim(a) && IsSim(b)) return DoRename(a, b, 0);
    if (Outside(a) || Outside(b)) return -1;
    return static_cast<int>(syscall(SYS_renameat, d1, a, d2, b));
}
int renameat2(int d1, const char* a, int d2, const char* b, unsigned flags) {
    if (IsSim(a) && IsSim(b)) return DoRename(a, b, flags);
    if (Outside(a) || Outside(b)) return -1;
    return static_cast<int>(syscall(SYS_renameat2, d1, a, d2, b, flags));
}
int link(const char* a, const char* b) {
    if (IsSim(a) && IsSim(b)) return DoLink(a, b);
    if (Outside(a) || Outside(b)) return -1;
    return static_cast<int>(syscall(SYS_link, a, b));
}
DIR* opendir(const char* path) {
    if (!IsSim(path)) return Real<DIR* (*)(const char*)>("opendir")(path);
    if (Enter("opendir", path, g_rates.opendir, {EIO, EACCES, EMFILE})) return nullptr;
    Where w;
    int e = Walk(path, true, &w);
    if (!e && !w.ino) e = ENOENT;
    if (!e && I(w.ino).kind != kDir) e = ENOTDIR;
    if (e) {
        errno = e;
        return nullptr;
    }
    Dir* d = new Dir();
    d->names = {".", ".."};
    for (auto& x : I(w.ino).ent) d->names.push_back(x.first);
    // the order of a listing is the file system's business
    for (size_t i = d->names.size(); i > 1; --i) std::swap(d->names[i - 1], d->names[dst::Aux() % i]);
    g_dirs->insert(d);
    return reinterpret_cast<DIR*>(d);
}
struct dirent* readdir(DIR* dp) {
    Dir* d = reinterpret_cast<Dir*>(dp);
    if (!g_on || !g_dirs->count(d)) return Real<struct dirent* (*)(DIR*)>("readdir")(dp);
    // a missing directory entry is a hard error too; only the first reads of a block touch the disk
    if (Enter("readdir", "", g_rates.readdir, {EIO})) return nullptr;
    if (d->at >= d->names.size()) return nullptr;
    memset(&d->ent, 0, sizeof d->ent);
    snprintf(d->ent.d_name, sizeof d->ent.d_name, "%s", d->names[d->at].c_str());
    d->ent.d_ino = d->at + 1;
    d->ent.d_type = DT_UNKNOWN;
    ++d->at;
    return &d->ent;
}
struct dirent64* readdir64(DIR* dp) { return reinterpret_cast<struct dirent64*>(readdir(dp)); }
int closedir(DIR* dp) {
    Dir* d = reinterpret_cast<Dir*>(dp);
    if (!g_on || !g_dirs->count(d)) return Real<int (*)(DIR*)>("closedir")(dp);
    bool err = Enter("closedir", "", g_rates.closedir, {EIO});
    g_dirs->erase(d);
    delete d;
    return err ? -1 : 0;
}

}  // extern "C"
