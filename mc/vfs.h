/* In-memory file system behind the library's stdio and file calls, with
 * crash points, power loss, and fault injection. */
#ifndef VFS_H
#define VFS_H
#include <setjmp.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>

#define VFS_DATA_MAX 300000
struct vfs_inode {
	int used;
	uint8_t cur[VFS_DATA_MAX];	/* what the kernel has */
	size_t curlen;
	uint8_t dur[VFS_DATA_MAX];	/* what the storage has */
	size_t durlen;
	int dirty;			/* cur is not on the storage */
	int poisoned;			/* a failed sync dropped its pages */
	int seq_sync;
};

extern int vfs_active;
void vfs_set(const char *name, const void *data, size_t len); /* durable */
void vfs_remove(const char *name);
const struct vfs_inode *vfs_get(const char *name); /* NULL: absent */
int vfs_is(const char *name, const void *data, size_t len);
int vfs_count(void);			/* names present */
int vfs_open_count(void);		/* open files */
void vfs_barrier(void);			/* everything becomes durable */
uint64_t vfs_hash(void);
char *vfs_list(void);			/* description */
extern int vfs_huge;		/* bytes beyond VFS_DATA_MAX: only counted,
				 * and read as VFS_FILLER */
#define VFS_FILLER 'a'
extern int64_t vfs_huge_alt;	/* the one of them that is another */
extern long vfs_ops;			/* operations done */

/* crash points: before each operation which changes the file system, when
 * enabled, the explorer may stop there: the state after the crash is left in
 * place and control goes to vfs_crash_jb */
extern int vfs_crash_on;		/* 0 no, 1 process, 2 and power loss */
extern jmp_buf vfs_crash_jb;
void vfs_crash(void);			/* crash now (chooses what survives) */
void vfs_crash_point(const char *where);
/* the result of the latest crash */
extern int vfs_crashed_power;
#endif
