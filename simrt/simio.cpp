// simulated file system behind the C library's file calls (paths below /sim/)
#include "internal.h"
#include "simfs.h"
#include <dirent.h>
#include <dlfcn.h>
#include <limits.h>
#include <errno.h>
#include <fcntl.h>
#include <stdio.h>
#include <stdarg.h>
#include <stdlib.h>
#include <unistd.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <sys/sysmacros.h>
#include <linux/stat.h>
#include <map>
#include <string>
#include <vector>
#include <memory>
using namespace simi;
namespace
{
    struct Inode { std::string data; i64 mtime = 0; u64 badFrom = ~0ull; u64 ino; };
    using P = std::shared_ptr<Inode>;
    struct Disk { std::map<std::string, P> files; std::map<std::string, int> dirs; };
    struct Handle { P f; std::string path; u64 pos = 0; bool rd, wr, app; FILE* fp = nullptr; };
    struct Fs
    {
        Disk d, atCrash; std::map<int, Handle> h; std::map<FILE*, int> fps; int next = 0x40000000; u64 inos = 1;
        u64 muts = 0, crashAt = 0, fails = 0; bool crashed = false, full = false, relative = false; unsigned permille = 0;
        Fs() { d.dirs["/sim"] = 1; }
    };
    Fs* g; Fs& F() { if (!g) g = new Fs; return *g; }
    template <typename T> void real(T& f, char const* n) { if (!f) f = (T)dlsym(RTLD_NEXT, n); }
    bool ours(char const* p) { return active() && p && ((!strncmp(p, "/sim", 4) && (p[4] == '/' || !p[4])) || (g && g->relative && *p && *p != '/')); }
    bool ours(int fd) { return fd >= 0x40000000 && fd < 0x50000000 && g; }
    std::string norm(char const* p)
    {
        std::vector<std::string> parts; std::string s = *p == '/' ? p : std::string("/sim/") + p, cur;
        for (std::size_t i = 0; i <= s.size(); ++i) if (i == s.size() || s[i] == '/') { if (cur == "..") { if (!parts.empty()) parts.pop_back(); } else if (!cur.empty() && cur != ".") parts.push_back(cur); cur.clear(); } else cur += s[i];
        std::string r; for (auto& x : parts) r += "/" + x; return r.empty() ? "/" : r;
    }
    std::string parent(std::string const& p) { auto i = p.rfind('/'); return i == 0 ? "/" : p.substr(0, i); }
    bool boom(char const* k, unsigned mul = 1) { Fs& f = F(); return f.permille && sim::fault(k, f.permille * mul); }
    bool fail(char const* k) { if (boom(k)) { ++F().fails; return true; } return false; }
    Disk copy(Disk const& d) { Disk c; c.dirs = d.dirs; for (auto& e : d.files) c.files[e.first] = std::make_shared<Inode>(*e.second); return c; }
    // a mutation is about to be applied; tear(k) applies part of it
    template <typename Fn> void mutate(Fn tear)
    {
        Fs& f = F(); ++f.muts;
        if (f.crashAt && f.muts == f.crashAt) { Disk c = copy(f.d); tear(c); f.atCrash = std::move(c); f.crashed = true; }
    }
    struct none { void operator()(Disk&) const {} };
    int do_open(char const* path, int flags)
    {
        Fs& f = F(); std::string p = norm(path); sync_point();
        if (fail("open_error")) { static int const e[] = { EACCES, EMFILE, EIO, ENFILE }; errno = e[sim::fault_value("open_error", 4)]; return -1; }
        if (f.d.dirs.count(p)) { if ((flags & O_ACCMODE) != O_RDONLY) { errno = EISDIR; return -1; } int fd = f.next++; f.h[fd] = Handle{ std::make_shared<Inode>(), p, 0, false, false, false }; return fd; }
        auto it = f.d.files.find(p);
        if (it == f.d.files.end())
        {
            if (!(flags & O_CREAT)) { errno = ENOENT; return -1; }
            if (!f.d.dirs.count(parent(p))) { errno = ENOENT; return -1; }
            mutate(none{});
            auto n = std::make_shared<Inode>(); n->ino = f.inos++; n->mtime = now(); it = f.d.files.emplace(p, n).first;
        }
        else if ((flags & O_CREAT) && (flags & O_EXCL)) { errno = EEXIST; return -1; }
        else if ((flags & O_TRUNC) && (flags & O_ACCMODE) != O_RDONLY) { mutate(none{}); it->second->data.clear(); it->second->mtime = now(); }
        int const am = flags & O_ACCMODE; int fd = f.next++;
        f.h[fd] = Handle{ it->second, p, 0, am == O_RDONLY || am == O_RDWR, am != O_RDONLY, (flags & O_APPEND) != 0 };
        return fd;
    }
    ssize_t do_read(int fd, void* b, size_t n)
    {
        Fs& f = F(); auto it = f.h.find(fd); if (it == f.h.end()) { errno = EBADF; return -1; } Handle& h = it->second;
        if (!h.rd) { errno = EBADF; return -1; }
        check_heap(b, n, true, 0); sync_point();
        if (boom("interrupted")) { errno = EINTR; return -1; }
        if (fail("read_error")) { errno = EIO; return -1; }
        u64 const sz = h.f->data.size(); if (h.pos >= sz || !n) return 0;
        u64 k = sz - h.pos; if (k > n) k = n;
        if (h.pos >= h.f->badFrom) { ++f.fails; errno = EIO; return -1; }
        if (h.pos + k > h.f->badFrom) k = h.f->badFrom - h.pos;
        if (k > 1 && boom("short_read", 4)) k = 1 + sim::fault_value("short_read", k - 1);
        memcpy(b, h.f->data.data() + h.pos, k); h.pos += k; return (ssize_t)k;
    }
    ssize_t do_write(int fd, std::string const& s)
    {
        Fs& f = F(); auto it = f.h.find(fd); if (it == f.h.end()) { errno = EBADF; return -1; } Handle& h = it->second;
        if (!h.wr) { errno = EBADF; return -1; }
        sync_point(); if (s.empty()) return 0;
        if (boom("interrupted")) { errno = EINTR; return -1; }
        if (fail("write_error")) { errno = EIO; return -1; }
        u64 k = s.size();
        if (f.full || boom("disk_full")) { if (f.full || k < 2) { f.full = true; ++f.fails; errno = ENOSPC; return -1; } f.full = true; k = 1 + sim::fault_value("disk_full", k - 1); }
        else if (k > 1 && boom("short_write", 4)) k = 1 + sim::fault_value("short_write", k - 1);
        u64 const at = h.app ? h.f->data.size() : h.pos;
        auto apply = [&](Inode& n, u64 m) { if (n.data.size() < at + m) n.data.resize(at + m); n.data.replace(at, m, s, 0, m); };
        mutate([&](Disk& d) { u64 m = sim::fault_value("torn_write", k + 1); for (auto& e : d.files) if (e.second->ino == h.f->ino) { apply(*e.second, m); break; } });
        apply(*h.f, k); h.f->mtime = now(); h.pos = at + k; return (ssize_t)k;
    }
    off64_t do_seek(int fd, off64_t o, int w)
    {
        Fs& f = F(); auto it = f.h.find(fd); if (it == f.h.end()) { errno = EBADF; return -1; } Handle& h = it->second;
        i64 b = w == SEEK_SET ? 0 : w == SEEK_CUR ? (i64)h.pos : (i64)h.f->data.size(); if (b + o < 0) { errno = EINVAL; return -1; }
        h.pos = (u64)(b + o); return (off64_t)h.pos;
    }
    int do_close(int fd)
    {
        Fs& f = F(); auto it = f.h.find(fd); if (it == f.h.end()) { errno = EBADF; return -1; }
        sync_point(); bool const wr = it->second.wr; f.h.erase(it); if (wr && fail("close_error")) { errno = EIO; return -1; } return 0;
    }
    template <typename S> void fill_stat(S* s, Inode* n, bool dir) { memset((void*)s, 0, sizeof *s); s->st_mode = dir ? (S_IFDIR | 0755) : (S_IFREG | 0644); s->st_nlink = 1; s->st_size = n ? (off_t)n->data.size() : 0; s->st_ino = n ? n->ino : 1; s->st_dev = 77; i64 t = n ? n->mtime + realtime_offset() : 0; s->st_mtim.tv_sec = t / 1000000000; s->st_mtim.tv_nsec = t % 1000000000; s->st_blksize = 4096; }
    template <typename S> int do_stat(char const* path, S* s)
    {
        Fs& f = F(); std::string p = norm(path); sync_point();
        if (fail("stat_error")) { errno = EIO; return -1; }
        if (f.d.dirs.count(p)) { fill_stat(s, nullptr, true); return 0; }
        auto it = f.d.files.find(p);
        if (it == f.d.files.end()) { for (std::string q = parent(p); q.size() > 1; q = parent(q)) if (f.d.files.count(q)) { errno = ENOTDIR; return -1; } errno = ENOENT; return -1; }
        fill_stat(s, it->second.get(), false); return 0;
    }
    ssize_t ck_read(void* c, char* b, size_t n) { Fw fw; return do_read((int)(i64)c, b, n); }
    ssize_t ck_write(void* c, char const* b, size_t n) { Fw fw; ssize_t r = do_write((int)(i64)c, std::string(b, n)); return r < 0 ? 0 : r; }
    int ck_seek(void* c, off64_t* o, int w) { Fw fw; off64_t r = do_seek((int)(i64)c, *o, w); if (r < 0) return -1; *o = r; return 0; }
    int ck_close(void* c) { Fw fw; return do_close((int)(i64)c); }
    int mode_flags(char const* m) { bool plus = strchr(m, '+'); int f = *m == 'r' ? (plus ? O_RDWR : O_RDONLY) : *m == 'w' ? ((plus ? O_RDWR : O_WRONLY) | O_CREAT | O_TRUNC) : *m == 'a' ? ((plus ? O_RDWR : O_WRONLY) | O_CREAT | O_APPEND) : -1; if (f >= 0 && strchr(m, 'x')) f |= O_EXCL; return f; }
    FILE* do_fopen(char const* path, char const* mode)
    {
        int fl = mode_flags(mode); if (fl < 0) { errno = EINVAL; return nullptr; }
        int fd = do_open(path, fl); if (fd < 0) return nullptr;
        cookie_io_functions_t io{ ck_read, ck_write, ck_seek, ck_close };
        FILE* fp = fopencookie((void*)(i64)fd, mode, io); F().h[fd].fp = fp; F().fps[fp] = fd; return fp;
    }
    int do_rename(char const* a0, char const* b0)
    {
        Fs& f = F(); std::string a = norm(a0), b = norm(b0); sync_point();
        if (fail("rename_error")) { static int const e[] = { EXDEV, EACCES, EIO, ENOSPC }; errno = e[sim::fault_value("rename_error", 4)]; return -1; }
        if (f.d.dirs.count(a)) { errno = EINVAL; return -1; }
        auto it = f.d.files.find(a); if (it == f.d.files.end()) { errno = ENOENT; return -1; }
        if (f.d.dirs.count(b)) { errno = EISDIR; return -1; } if (!f.d.dirs.count(parent(b))) { errno = ENOENT; return -1; }
        if (a == b) return 0;
        mutate(none{}); P n = it->second; f.d.files.erase(it); f.d.files[b] = n; return 0;
    }
    int do_unlink(char const* p0, bool dirs)
    {
        Fs& f = F(); std::string p = norm(p0); sync_point();
        if (fail("unlink_error")) { errno = EACCES; return -1; }
        if (f.d.dirs.count(p)) { if (!dirs) { errno = EISDIR; return -1; } for (auto& e : f.d.files) if (!e.first.compare(0, p.size() + 1, p + "/")) { errno = ENOTEMPTY; return -1; } mutate(none{}); f.d.dirs.erase(p); return 0; }
        if (!f.d.files.count(p)) { errno = ENOENT; return -1; }
        mutate(none{}); f.d.files.erase(p); return 0;
    }
    int do_mkdir(char const* p0)
    {
        Fs& f = F(); std::string p = norm(p0); sync_point();
        if (fail("mkdir_error")) { errno = EACCES; return -1; }
        if (f.d.dirs.count(p) || f.d.files.count(p)) { errno = EEXIST; return -1; }
        if (!f.d.dirs.count(parent(p))) { errno = ENOENT; return -1; }
        mutate(none{}); f.d.dirs[p] = 1; return 0;
    }
    // directory streams: a snapshot of the names, in an order the seed decides
    struct Dirs { std::vector<std::pair<std::string, bool>> names; std::size_t at = 0; int fd; dirent ent; };
    std::map<DIR*, Dirs>* gDirs;
    DIR* do_fdopendir(int fd)
    {
        Fs& f = F(); auto it = f.h.find(fd); if (it == f.h.end()) { errno = EBADF; return nullptr; } if (!f.d.dirs.count(it->second.path)) { errno = ENOTDIR; return nullptr; }
        if (!gDirs) gDirs = new std::map<DIR*, Dirs>; Dirs d; d.fd = fd; std::string const pre = it->second.path + "/";
        for (auto& e : f.d.files) if (!e.first.compare(0, pre.size(), pre) && e.first.find('/', pre.size()) == std::string::npos) d.names.push_back({ e.first.substr(pre.size()), false });
        for (auto& e : f.d.dirs) if (!e.first.compare(0, pre.size(), pre) && e.first.find('/', pre.size()) == std::string::npos) d.names.push_back({ e.first.substr(pre.size()), true });
        for (std::size_t i = d.names.size(); i > 1; --i) std::swap(d.names[i - 1], d.names[sim::rnd(i)]);
        DIR* p = (DIR*)malloc(64); (*gDirs)[p] = std::move(d); return p;
    }
    bool ours(DIR* d) { return gDirs && gDirs->count(d); }
    dirent* do_readdir(DIR* p)
    {
        Dirs& d = (*gDirs)[p]; sync_point(); if (fail("readdir_error")) { errno = EIO; return nullptr; }
        if (d.at == d.names.size()) return nullptr; auto& n = d.names[d.at++];
        memset((void*)&d.ent, 0, sizeof d.ent); strncpy(d.ent.d_name, n.first.c_str(), sizeof d.ent.d_name - 1); d.ent.d_type = n.second ? DT_DIR : DT_REG; d.ent.d_ino = 1; return &d.ent;
    }
    int do_trunc(P n, off64_t len) { if (fail("write_error")) { errno = EIO; return -1; } mutate(none{}); n->data.resize((std::size_t)len); return 0; }
}
#define REAL(ret, name, args) static ret (*r) args; real(r, #name)
extern "C" {
FILE* fopen(char const* p, char const* m) { if (ours(p)) { Fw fw; return do_fopen(p, m); } REAL(FILE*, fopen, (char const*, char const*)); return r(p, m); }
FILE* fopen64(char const* p, char const* m) { if (ours(p)) { Fw fw; return do_fopen(p, m); } REAL(FILE*, fopen64, (char const*, char const*)); return r(p, m); }
int fclose(FILE* f) { if (g) { Fw fw; g->fps.erase(f); } REAL(int, fclose, (FILE*)); return r(f); }
int fileno(FILE* f) { if (g) { Fw fw; auto it = g->fps.find(f); if (it != g->fps.end()) return it->second; } REAL(int, fileno, (FILE*)); return r(f); }
static int open_any(char const* p, int fl, mode_t) { Fw fw; return do_open(p, fl); }
int open(char const* p, int fl, ...) { va_list a; va_start(a, fl); mode_t m = va_arg(a, mode_t); va_end(a); if (ours(p)) return open_any(p, fl, m); REAL(int, open, (char const*, int, ...)); return r(p, fl, m); }
int open64(char const* p, int fl, ...) { va_list a; va_start(a, fl); mode_t m = va_arg(a, mode_t); va_end(a); if (ours(p)) return open_any(p, fl, m); REAL(int, open64, (char const*, int, ...)); return r(p, fl, m); }
int openat(int at, char const* p, int fl, ...)
{
    va_list a; va_start(a, fl); mode_t m = va_arg(a, mode_t); va_end(a);
    if (at == AT_FDCWD || *p == '/') { if (ours(p)) return open_any(p, fl, m); } else if (ours(at)) { Fw fw; auto it = F().h.find(at); if (it == F().h.end()) { errno = EBADF; return -1; } return do_open((it->second.path + "/" + p).c_str(), fl); }
    REAL(int, openat, (int, char const*, int, ...)); return r(at, p, fl, m);
}
int __openat_2(int at, char const* p, int fl) { return openat(at, p, fl, (mode_t)0); } // as fortified code opens directories
DIR* fdopendir(int fd) { if (ours(fd)) { Fw fw; return do_fdopendir(fd); } REAL(DIR*, fdopendir, (int)); return r(fd); }
DIR* opendir(char const* p) { if (ours(p)) { Fw fw; int fd = do_open(p, O_RDONLY); if (fd < 0) return nullptr; DIR* d = do_fdopendir(fd); if (!d) do_close(fd); return d; } REAL(DIR*, opendir, (char const*)); return r(p); }
dirent* readdir(DIR* d) { if (ours(d)) { Fw fw; return do_readdir(d); } REAL(dirent*, readdir, (DIR*)); return r(d); }
int dirfd(DIR* d) { if (ours(d)) return (*gDirs)[d].fd; REAL(int, dirfd, (DIR*)); return r(d); }
int closedir(DIR* d) { if (ours(d)) { Fw fw; F().h.erase((*gDirs)[d].fd); gDirs->erase(d); free(d); return 0; } REAL(int, closedir, (DIR*)); return r(d); }
char* realpath(char const* p, char* out)
{
    if (ours(p)) { Fw fw; struct stat s; if (do_stat(p, &s)) return nullptr; std::string n = norm(p); if (!out) { out = (char*)malloc(PATH_MAX); } memcpy(out, n.c_str(), n.size() + 1); return out; }
    REAL(char*, realpath, (char const*, char*)); return r(p, out);
}
int close(int fd) { if (net_owns(fd)) { Fw fw; return net_close(fd); } if (ours(fd)) { Fw fw; return do_close(fd); } REAL(int, close, (int)); return r(fd); }
ssize_t read(int fd, void* b, size_t n) { if (net_owns(fd)) { Fw fw; return net_read(fd, b, n); } if (ours(fd)) { Fw fw; return do_read(fd, b, n); } REAL(ssize_t, read, (int, void*, size_t)); return r(fd, b, n); }
ssize_t write(int fd, void const* b, size_t n) { if (net_owns(fd)) { Fw fw; return net_write(fd, b, n); } if (ours(fd)) { Fw fw; check_heap(b, n, false, 0); return do_write(fd, std::string((char const*)b, n)); } REAL(ssize_t, write, (int, void const*, size_t)); return r(fd, b, n); }
ssize_t writev(int fd, iovec const* v, int c)
{
    if (net_owns(fd)) { Fw fw; return net_writev(fd, v, c); }
    if (ours(fd)) { Fw fw; std::string s; for (int i = 0; i < c; ++i) { check_heap(v[i].iov_base, v[i].iov_len, false, 0); s.append((char const*)v[i].iov_base, v[i].iov_len); } return do_write(fd, s); }
    REAL(ssize_t, writev, (int, iovec const*, int)); return r(fd, v, c);
}
off_t lseek(int fd, off_t o, int w) { if (ours(fd)) { Fw fw; return do_seek(fd, o, w); } REAL(off_t, lseek, (int, off_t, int)); return r(fd, o, w); }
off64_t lseek64(int fd, off64_t o, int w) { if (ours(fd)) { Fw fw; return do_seek(fd, o, w); } REAL(off64_t, lseek64, (int, off64_t, int)); return r(fd, o, w); }
int fsync(int fd) { if (ours(fd)) { Fw fw; sync_point(); if (fail("write_error")) { errno = EIO; return -1; } return 0; } REAL(int, fsync, (int)); return r(fd); }
int fdatasync(int fd) { if (ours(fd)) return fsync(fd); REAL(int, fdatasync, (int)); return r(fd); }
int ftruncate(int fd, off_t n) { if (ours(fd)) { Fw fw; return do_trunc(F().h[fd].f, n); } REAL(int, ftruncate, (int, off_t)); return r(fd, n); }
int stat(char const* p, struct stat* s) { if (ours(p)) { Fw fw; return do_stat(p, s); } REAL(int, stat, (char const*, struct stat*)); return r(p, s); }
int lstat(char const* p, struct stat* s) { if (ours(p)) { Fw fw; return do_stat(p, s); } REAL(int, lstat, (char const*, struct stat*)); return r(p, s); }
int stat64(char const* p, struct stat64* s) { if (ours(p)) { Fw fw; return do_stat(p, s); } REAL(int, stat64, (char const*, struct stat64*)); return r(p, s); }
int fstat(int fd, struct stat* s) { if (ours(fd)) { Fw fw; auto it = F().h.find(fd); if (it == F().h.end()) { errno = EBADF; return -1; } fill_stat(s, it->second.f.get(), F().d.dirs.count(it->second.path)); return 0; } REAL(int, fstat, (int, struct stat*)); return r(fd, s); }
int access(char const* p, int m) { if (ours(p)) { Fw fw; struct stat s; return do_stat(p, &s); } REAL(int, access, (char const*, int)); return r(p, m); }
int rename(char const* a, char const* b) { bool const oa = ours(a), ob = ours(b); if (oa || ob) { Fw fw; if (!oa || !ob) { errno = EXDEV; return -1; } return do_rename(a, b); } REAL(int, rename, (char const*, char const*)); return r(a, b); }
int unlink(char const* p) { if (ours(p)) { Fw fw; return do_unlink(p, false); } REAL(int, unlink, (char const*)); return r(p); }
int remove(char const* p) { if (ours(p)) { Fw fw; return do_unlink(p, true); } REAL(int, remove, (char const*)); return r(p); }
int mkdir(char const* p, mode_t m) { if (ours(p)) { Fw fw; return do_mkdir(p); } REAL(int, mkdir, (char const*, mode_t)); return r(p, m); }
}
// zlib is not instrumented: check the buffers it is given
#include <zlib.h>
extern "C" int inflate(z_streamp s, int fl) { static int (*r)(z_streamp, int); real(r, "inflate"); if (active() && s) { Fw fw; check_heap(s->next_in, s->avail_in, false, 0); check_heap(s->next_out, s->avail_out, true, 0); sync_point(); } return r(s, fl); }
extern "C" uLong crc32(uLong c, Bytef const* b, uInt n) { static uLong (*r)(uLong, Bytef const*, uInt); real(r, "crc32"); if (active() && b) { Fw fw; check_heap(b, n, false, 0); } return r(c, b, n); }
namespace sim::fs
{
    void put(std::string const& path, std::string const& bytes) { Fw fw; Fs& f = F(); auto p = norm(path.c_str()); for (auto q = parent(p); q.size() > 1; q = parent(q)) f.d.dirs[std::string(q)] = 1; auto n = std::make_shared<Inode>(); n->ino = f.inos++; n->data = std::string(bytes.data(), bytes.size()); n->mtime = ::simi::now(); f.d.files[p] = n; }
    bool get(std::string const& path, std::string& out) { std::size_t n; char const* d; { Fw fw; auto it = F().d.files.find(norm(path.c_str())); if (it == F().d.files.end()) return false; d = it->second->data.data(); n = it->second->data.size(); } sim::quiet q; out.assign(d, n); return true; }
    bool exists(std::string const& path) { Fw fw; auto p = norm(path.c_str()); return F().d.files.count(p) || F().d.dirs.count(p); }
    bool is_dir(std::string const& path) { Fw fw; return F().d.dirs.count(norm(path.c_str())); }
    void remove(std::string const& path) { Fw fw; F().d.files.erase(norm(path.c_str())); }
    std::vector<std::string> list() { Fw fw; std::vector<std::string> v; for (auto& e : F().d.files) v.push_back(e.first); return v; }
    std::uint64_t mutations() { Fw fw; return F().muts; }
    void crash_at(std::uint64_t nth) { Fw fw; F().crashAt = nth ? F().muts + nth : 0; F().crashed = false; }
    bool crashed() { Fw fw; return F().crashed; }
    void restart() { Fw fw; Fs& f = F(); f.d = copy(f.atCrash); f.crashAt = 0; f.crashed = false; f.full = false; }
    void relative(bool on) { Fw fw; F().relative = on; }
    int open_handles() { Fw fw; return (int)F().h.size(); }
    faults::faults(unsigned p) { Fw fw; saved = F().permille; F().permille = p; }
    faults::~faults() { Fw fw; F().permille = saved; F().full = false; }
    void fail_reads_from(std::string const& path, std::uint64_t o) { Fw fw; auto it = F().d.files.find(norm(path.c_str())); if (it != F().d.files.end()) it->second->badFrom = o; }
    std::uint64_t failures() { Fw fw; return F().fails; }
}
