// File-system call faults. The harness lists the functions in a "// ldflags: -Wl,--wrap=..." line and defines VFAULT_IMPL.
#ifndef VFAULT_HPP
#define VFAULT_HPP
#include "vh.hpp"
#include <cerrno>
#include <cstdarg>
#include <dirent.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <unistd.h>
namespace vh {
struct FaultFs {
	enum Mode { NONE, CRASH, FAIL, NOSPACE, INTR, SHORT } mode = NONE; bool armed = false; str prefix; size_t calls = 0, mutating = 0, at = 0; int err = EIO; bool half = false, dead = false, fired = false; Rng* rng = nullptr;
	std::set<int> fds; std::set<DIR*> dirs; std::vector<str> log; std::map<int, str> path; std::set<str> dirty; std::vector<str> unsynced; // files made visible with data not forced to disk
	str firedAt; std::map<str, size_t> kinds;
	void arm(Mode m, size_t at_, int e = EIO, bool h = false) { mode = m; at = at_; err = e; half = h; calls = mutating = 0; dead = fired = false; log.clear(); dirty.clear(); unsynced.clear(); firedAt.clear(); armed = true; }
	void disarm() { armed = false; }
	bool mine(const char* p) const { return armed && p && !strncmp(p, prefix.c_str(), prefix.size()); }
	// 0: go on, 1: fail with errno set, 2: (write) do half of it and fail from then on
	int enter(const char* name, const str& what, bool mut, bool space = false) {
		size_t c = calls++, m = mutating; if (mut) ++mutating; if (log.size() < 400) log.push_back(str(name) + " " + what); ++kinds[name];
		auto hit = [&](int e) { if (!fired) { fired = true; firedAt = str(name) + " " + what; } errno = e; return 1; };
		switch (mode) {
			case CRASH: if (dead) { errno = EIO; return 1; } if (mut && m == at) { dead = true; if (half && !strcmp(name, "write")) { fired = true; firedAt = str(name) + " " + what; return 2; } return hit(EIO); } return 0;
			case FAIL: return c == at ? hit(err) : 0;
			case NOSPACE: return space && m >= at ? hit(ENOSPC) : 0;
			case INTR: if (c >= at && c < at + 3 && (!strcmp(name, "read") || !strcmp(name, "write"))) return hit(EINTR); return 0;
			default: return 0;
		}
	}
};
extern FaultFs g_fs;
}
#ifdef VFAULT_IMPL
namespace vh { FaultFs g_fs; }
using vh::g_fs;
extern "C" {
int __real_open(const char*, int, ...); int __real_close(int); ssize_t __real_read(int, void*, size_t); ssize_t __real_write(int, const void*, size_t); off_t __real_lseek(int, off_t, int); int __real_fsync(int); int __real_fdatasync(int); int __real_ftruncate(int, off_t);
int __real_stat(const char*, struct stat*); int __real_lstat(const char*, struct stat*); int __real_fstat(int, struct stat*); int __real_access(const char*, int); int __real_mkdir(const char*, mode_t); int __real_rmdir(const char*); int __real_unlink(const char*); int __real_remove(const char*); int __real_rename(const char*, const char*); int __real_link(const char*, const char*);
DIR* __real_opendir(const char*); struct dirent* __real_readdir(DIR*); int __real_closedir(DIR*);
int __wrap_open(const char* p, int fl, ...) {
	va_list a; va_start(a, fl); mode_t m = (fl & O_CREAT) ? va_arg(a, mode_t) : 0; va_end(a); if (!g_fs.mine(p)) return __real_open(p, fl, m);
	bool mut = fl & (O_CREAT | O_TRUNC); if (g_fs.enter("open", p, mut, mut)) return -1; int fd = __real_open(p, fl, m); if (fd >= 0) { g_fs.fds.insert(fd); g_fs.path[fd] = p; } return fd;
}
int __wrap_close(int fd) { if (!g_fs.fds.count(fd)) return __real_close(fd); int r = g_fs.armed && g_fs.mode != vh::FaultFs::INTR ? g_fs.enter("close", g_fs.path[fd], false) : 0; int e = errno; g_fs.fds.erase(fd); __real_close(fd); if (r && !g_fs.dead) { errno = e; return -1; } return 0; }
ssize_t __wrap_read(int fd, void* b, size_t n) { if (!g_fs.armed || !g_fs.fds.count(fd)) return __real_read(fd, b, n); if (g_fs.enter("read", g_fs.path[fd], false)) return -1; if (g_fs.mode == vh::FaultFs::SHORT && n > 1) n = 1 + g_fs.rng->below(std::min<size_t>(n, 3000)); return __real_read(fd, b, n); }
ssize_t __wrap_write(int fd, const void* b, size_t n) {
	if (!g_fs.armed || !g_fs.fds.count(fd)) return __real_write(fd, b, n); int r = g_fs.enter("write", g_fs.path[fd], true, true); if (r == 1) return -1; g_fs.dirty.insert(g_fs.path[fd]);
	if (r == 2) { (void)!__real_write(fd, b, n / 2); errno = EIO; return -1; } if (g_fs.mode == vh::FaultFs::SHORT && n > 1) n = 1 + g_fs.rng->below(n); if (g_fs.mode == vh::FaultFs::NOSPACE && n > 1 && g_fs.mutating > g_fs.at) n /= 2; return __real_write(fd, b, n);
}
off_t __wrap_lseek(int fd, off_t o, int w) { if (g_fs.armed && g_fs.fds.count(fd) && g_fs.enter("lseek", g_fs.path[fd], false)) return -1; return __real_lseek(fd, o, w); }
int __wrap_fsync(int fd) { if (g_fs.armed && g_fs.fds.count(fd)) { if (g_fs.enter("fsync", g_fs.path[fd], true, true)) return -1; g_fs.dirty.erase(g_fs.path[fd]); } return __real_fsync(fd); }
int __wrap_fdatasync(int fd) { if (g_fs.armed && g_fs.fds.count(fd)) { if (g_fs.enter("fdatasync", g_fs.path[fd], true, true)) return -1; g_fs.dirty.erase(g_fs.path[fd]); } return __real_fdatasync(fd); }
int __wrap_ftruncate(int fd, off_t o) { if (g_fs.armed && g_fs.fds.count(fd) && g_fs.enter("ftruncate", g_fs.path[fd], true, true)) return -1; return __real_ftruncate(fd, o); }
int __wrap_stat(const char* p, struct stat* s) { if (g_fs.mine(p) && g_fs.enter("stat", p, false)) return -1; return __real_stat(p, s); }
int __wrap_lstat(const char* p, struct stat* s) { if (g_fs.mine(p) && g_fs.enter("lstat", p, false)) return -1; return __real_lstat(p, s); }
int __wrap_fstat(int fd, struct stat* s) { if (g_fs.armed && g_fs.fds.count(fd) && g_fs.enter("fstat", g_fs.path[fd], false)) return -1; return __real_fstat(fd, s); }
int __wrap_access(const char* p, int m) { if (g_fs.mine(p) && g_fs.enter("access", p, false)) return -1; return __real_access(p, m); }
int __wrap_mkdir(const char* p, mode_t m) { if (g_fs.mine(p) && g_fs.enter("mkdir", p, true, true)) return -1; return __real_mkdir(p, m); }
int __wrap_rmdir(const char* p) { if (g_fs.mine(p) && g_fs.enter("rmdir", p, true)) return -1; return __real_rmdir(p); }
int __wrap_unlink(const char* p) { if (g_fs.mine(p) && g_fs.enter("unlink", p, true)) return -1; return __real_unlink(p); }
int __wrap_remove(const char* p) { if (g_fs.mine(p) && g_fs.enter("remove", p, true)) return -1; return __real_remove(p); }
static void visible(const char* a, const char* b) { if (g_fs.dirty.count(a)) { vh::str s(b); if (s.find("/tmp/") == vh::str::npos) g_fs.unsynced.push_back(b); g_fs.dirty.erase(a); } }
int __wrap_rename(const char* a, const char* b) { if (!g_fs.mine(a)) return __real_rename(a, b); if (g_fs.enter("rename", vh::str(a) + " " + b, true)) return -1; visible(a, b); return __real_rename(a, b); }
int __wrap_link(const char* a, const char* b) { if (!g_fs.mine(a)) return __real_link(a, b); if (g_fs.enter("link", vh::str(a) + " " + b, true)) return -1; visible(a, b); return __real_link(a, b); }
DIR* __wrap_opendir(const char* p) { if (!g_fs.mine(p)) return __real_opendir(p); if (g_fs.enter("opendir", p, false)) return nullptr; DIR* d = __real_opendir(p); if (d) g_fs.dirs.insert(d); return d; }
struct dirent* __wrap_readdir(DIR* d) { if (g_fs.armed && g_fs.dirs.count(d) && g_fs.enter("readdir", "", false)) return nullptr; return __real_readdir(d); }
int __wrap_closedir(DIR* d) { g_fs.dirs.erase(d); return __real_closedir(d); }
}
#endif
#endif
