/* Scratch directory and descriptors of a file-system harness. Everything stays
 * below a directory that the harness creates and removes. */
#pragma once
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "mc.h"
#include <errno.h>
#include <fcntl.h>
#include <ftw.h>
#include <stdlib.h>
#include <stdio.h>
#include <string.h>
#include <sys/stat.h>
#include <unistd.h>

#define FSX_NFD 96
static char fsx_base[64];
static char fsx_dir[96];
static pid_t fsx_owner, fsx_pid;
static unsigned char fsx_fd0[FSX_NFD];
static int fsx_dirfd = -1;

static int fsx_rm(const char* p, const struct stat* st, int t, struct FTW* f) { (void)st; (void)t; if (f->level > 0 || fsx_pid == 0) remove(p); return 0; }
static void fsx_wipe(const char* d) { nftw(d, fsx_rm, 8, FTW_DEPTH | FTW_PHYS); }
static void fsx_cleanup(void)
{
    if (getpid() != fsx_owner || !fsx_base[0]) return;
    fsx_pid = 0;
    if (chdir("/")) { }
    fsx_wipe(fsx_base);
}
static void fsx_init(void)
{
    fsx_owner = getpid();
    static const char* const d[] = { "/dev/shm/mc-XXXXXX", "/tmp/mc-XXXXXX" };
    for (int i = 0; i < 2; i++) {
        strcpy(fsx_base, d[i]);
        if (mkdtemp(fsx_base)) { umask(022); return; }
    }
    perror("mkdtemp"); exit(3);
}
/* an empty current directory, no descriptors but those of the explorer */
static void fsx_begin(void)
{
    if (fsx_pid != getpid()) {
        fsx_pid = getpid();
        for (int i = 0; i < FSX_NFD; i++) fsx_fd0[i] = fcntl(i, F_GETFD) >= 0;
        snprintf(fsx_dir, sizeof fsx_dir, "%s/%d", fsx_base, (int)fsx_pid);
        mkdir(fsx_dir, 0755);
        fsx_dirfd = open(fsx_dir, O_RDONLY | O_DIRECTORY | O_CLOEXEC);
        if (fsx_dirfd >= 0) { int n = fcntl(fsx_dirfd, F_DUPFD_CLOEXEC, FSX_NFD + 4); close(fsx_dirfd); fsx_dirfd = n; }
        if (fsx_dirfd < 0) { perror(fsx_dir); _exit(3); }
        setenv("PWD", "/", 1);
    }
    for (int i = 0; i < FSX_NFD; i++) if (!fsx_fd0[i]) close(i);
    if (fchdir(fsx_dirfd)) { perror("fchdir"); _exit(3); }
    fsx_wipe(fsx_dir);
}
static void fsx_end(void)
{
    for (int i = 0; i < FSX_NFD; i++) if (!fsx_fd0[i]) close(i);
    if (fchdir(fsx_dirfd)) { }
    fsx_wipe(fsx_dir);
    if (0) fsx_cleanup();
}
static inline void fsx_put(const char* name, const char* s, size_t n)
{
    int fd = open(name, O_WRONLY | O_CREAT | O_TRUNC, 0644);
    if (fd < 0 || write(fd, s, n) != (ssize_t)n) { perror(name); _exit(3); }
    close(fd);
}
static inline void fsx_move(int fd, int to) { if (fd != to) { dup2(fd, to); close(fd); } }
