// A long range of memory in which a short block repeats, without the memory for it.
#pragma once
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <sys/mman.h>
#include <unistd.h>

// The block must be a whole number of pages.
static inline void* alias_map(size_t block, size_t total)
{
	int fd = memfd_create("block", 0);
	if (fd < 0) {
		char path[4096];
		snprintf(path, sizeof(path), "%s/block-XXXXXX", getenv("MC_SCRATCH") ? getenv("MC_SCRATCH") : "/tmp");
		if ((fd = mkstemp(path)) >= 0) unlink(path);
	}
	if (fd < 0 || ftruncate(fd, (off_t)block) != 0) mc_error("cannot create a memory block");
	size_t n = (total + block - 1) / block;
	uint8_t* p = mmap(NULL, n * block, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if (p == MAP_FAILED) mc_error("cannot reserve %zu bytes", n * block);
	for (size_t i = 0; i < n; i++) {
		if (mmap(p + i * block, block, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) mc_error("cannot map a block");
	}
	close(fd);
	return p;
}
static inline void alias_unmap(void* p, size_t block, size_t total) { munmap(p, (total + block - 1) / block * block); }
