// A model of the file a pool lives in: pages of 4096 bytes kept across close and reopen, shared
// mappings that must not be touched after munmap, a bus error behind the end of the file, and faults.
#pragma once
#include <cstring>
#include <cerrno>
#include <sys/types.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <fcntl.h>
#include <unistd.h>
#include "abcsym.h"
namespace vfs {
	enum { PG = 4096, MAXP = 120 };
	static struct { unsigned char* mem; int maps; } page[MAXP];
	static void* beyond[8]; static int nbeyond;			// mappings behind the end of the file
	static std::size_t size, off;						// bytes in the file, file offset
	static int fds;										// open descriptors
	static int live, max_live;							// live mappings
	static int fail_write = -1, short_bytes, fail_mmap = -1, fail_open;	// the n-th call from now fails
	static unsigned char* get(std::size_t i) {
		abc_assert(i < MAXP, "the file does not grow without bounds");
		if (!page[i].mem) { page[i].mem = (unsigned char*)abc_map_alloc(PG); std::memset(page[i].mem, 0, PG); abc_map_protect(page[i].mem, 0); }
		return page[i].mem;
	}
	struct Peek {	// access to a page of the file, mapped or not
		std::size_t i; unsigned char* p;
		Peek(std::size_t i_) : i(i_), p(get(i_)) { abc_map_protect(p, 1); }
		~Peek() { if (!page[i].maps) abc_map_protect(p, 0); }
	};
	static std::size_t pages() { return size / PG; }
	static void put(std::size_t at, const unsigned char* b, std::size_t n) {
		while (n) {
			std::size_t i = at / PG, o = at % PG, k = PG - o < n ? PG - o : n;
			Peek k2(i); std::memcpy(k2.p + o, b, k);
			b += k; at += k; n -= k;
		}
		if (at > size) size = at;
	}
	static void closed() { abc_assert(live == 0, "every page is unmapped when the pool goes away"); abc_assert(fds == 0, "the file is closed when the pool goes away"); }
}
extern "C" {
	int __wrap_open64(const char*, int flags, ...) {
		if (vfs::fail_open) { errno = EACCES; return -1; }
		abc_assert((flags & O_ACCMODE) == O_RDWR && !(flags & (O_TRUNC | O_APPEND)), "the file is opened for reading and writing, and keeps its content");
		vfs::fds++; vfs::off = 0; return 7;
	}
	int __wrap_open(const char* p, int flags, ...) { return __wrap_open64(p, flags, 0); }
	int __wrap_close(int fd) { abc_assert(fd == 7 && vfs::fds > 0, "close of a descriptor that is open"); vfs::fds--; return 0; }
	off_t __wrap_lseek64(int fd, off_t o, int whence) {
		abc_assert(fd == 7 && vfs::fds > 0, "lseek of a descriptor that is open");
		vfs::off = (whence == SEEK_SET ? 0 : whence == SEEK_CUR ? vfs::off : vfs::size) + o; return (off_t)vfs::off;
	}
	off_t __wrap_lseek(int fd, off_t o, int whence) { return __wrap_lseek64(fd, o, whence); }
	ssize_t __wrap_write(int fd, const void* b, size_t n) {
		abc_assert(fd == 7 && vfs::fds > 0, "write to a descriptor that is open");
		if (vfs::fail_write >= 0 && vfs::fail_write-- == 0) {
			if (vfs::short_bytes < 0) { errno = ENOSPC; return -1; }
			n = (size_t)vfs::short_bytes;
		}
		vfs::put(vfs::off, (const unsigned char*)b, n); vfs::off += n; return (ssize_t)n;
	}
	int __wrap_ftruncate64(int fd, off_t n) {
		abc_assert(fd == 7 && vfs::fds > 0, "ftruncate of a descriptor that is open");
		for (std::size_t i = ((std::size_t)n + vfs::PG - 1) / vfs::PG; i < vfs::MAXP; i++) if (vfs::page[i].mem) { abc_assert(!vfs::page[i].maps, "no mapped page is cut off"); vfs::page[i].mem = nullptr; }
		vfs::size = (std::size_t)n; return 0;
	}
	int __wrap_ftruncate(int fd, off_t n) { return __wrap_ftruncate64(fd, n); }
	void* __wrap_mmap64(void*, size_t len, int prot, int flags, int fd, off_t o) {
		abc_assert(fd == 7 && vfs::fds > 0, "mmap of a descriptor that is open");
		abc_assert(len == vfs::PG && (prot & (PROT_READ | PROT_WRITE)) == (PROT_READ | PROT_WRITE) && (flags & MAP_SHARED) && o % vfs::PG == 0, "a page is mapped shared, for reading and writing");
		if (vfs::fail_mmap >= 0 && vfs::fail_mmap-- == 0) { errno = ENOMEM; return MAP_FAILED; }
		if (++vfs::live > vfs::max_live) vfs::max_live = vfs::live;
		std::size_t i = (std::size_t)o / vfs::PG;
		if ((std::size_t)o >= vfs::size || o < 0) { void* p = abc_map_alloc(0); abc_assert(vfs::nbeyond < 8, "model"); vfs::beyond[vfs::nbeyond++] = p; return p; }
		abc_map_protect(vfs::get(i), 1); vfs::page[i].maps++;
		return vfs::page[i].mem;
	}
	void* __wrap_mmap(void* a, size_t len, int prot, int flags, int fd, off_t o) { return __wrap_mmap64(a, len, prot, flags, fd, o); }
	int __wrap_munmap(void* p, size_t len) {
		abc_assert(len == vfs::PG, "whole pages are unmapped");
		for (int i = 0; i < vfs::nbeyond; i++) if (vfs::beyond[i] == p && p) { vfs::beyond[i] = nullptr; vfs::live--; return 0; }
		for (std::size_t i = 0; i < vfs::MAXP; i++) if (vfs::page[i].mem == p && p) {
			abc_assert(vfs::page[i].maps > 0, "a page is unmapped once");
			vfs::live--; if (--vfs::page[i].maps == 0) abc_map_protect(p, 0);
			return 0;
		}
		abc_assert(0, "only mapped pages are unmapped"); return -1;
	}
	int __wrap_msync(void* p, size_t len, int) {
		for (int i = 0; i < vfs::nbeyond; i++) if (vfs::beyond[i] == p && p) return 0;
		for (std::size_t i = 0; i < vfs::MAXP; i++) if (vfs::page[i].mem == p && p) { abc_assert(vfs::page[i].maps > 0 && len == vfs::PG, "a mapped page is synced"); return 0; }
		abc_assert(0, "only mapped pages are synced"); return -1;
	}
}
