/* Virtual kernel: what the library's libc calls are redirected to (by
 * objcopy --redefine-syms on the library's objects only). */
#ifndef VK_H
#define VK_H
#include <setjmp.h>
#include <stddef.h>
#include <stdint.h>
#include <sys/types.h>
#include <time.h>
#ifdef __cplusplus
extern "C" {
#endif

void vk_reset(void);

/* ---- fault injection: deviations from the normal answer ---- */
enum vk_site {
	VKF_MALLOC, VKF_PIPE, VKF_FCNTL, VKF_READ, VKF_WRITE, VKF_POLL,
	VKF_CLOSE, VKF_OPEN, VKF_FSYNC, VKF_RENAME, VKF_UNLINK, VKF_FOPEN,
	VKF_FREAD, VKF_FWRITE, VKF_OPENDIR, VKF_READDIR, VKF_STAT, VKF_CLOCK,
	VKF_SLEEP, VKF_INOTIFY, VKF_IOCTL, VKF_GETRANDOM, VKF_FLAGS,
	VKF_ICONV,
	VKF_N
};
#define VKM(s) (1ull << (s))
extern uint64_t vk_fault_always;	/* sites which always fail */
extern uint64_t vk_fault_mask;		/* enabled sites */
extern int vk_fault_budget;		/* deviations left in this execution */
extern int vk_faults_done;		/* deviations made */
extern int vk_first_fault_errno, vk_last_fault_errno;
extern int vk_first_fault_site, vk_last_fault_site;
extern uint64_t vk_fault_sites;		/* sites which failed */
extern uint64_t vk_hard_sites;		/* ... otherwise than by EINTR */
extern int vk_all_points;		/* every call is a scheduling point */
/* replaces the errnos a site can fail with (0 terminated); NULL: default */
extern const int *vk_errs[VKF_N];
/* returns 0 (no fault) or one of the errnos of the list (0 terminated) */
int vk_inject(enum vk_site site, const char *name, const int *errnos);

/* ---- memory ---- */
extern int vk_mem_live;			/* blocks allocated by the library */
void *vk_malloc(size_t n);
void *vk_calloc(size_t a, size_t b);
void *vk_realloc(void *p, size_t n);
void vk_free(void *p);
char *vk_strdup(const char *s);
char *vk_strndup(const char *s, size_t n);
int vk_mem_owned(const void *p);	/* p is a live block of the library */
/* fiber mode uses a fixed arena, so that addresses are reproducible */
extern int vk_use_arena;
#define VK_ARENA_SZ (1 << 20)
extern uint8_t vk_arena[];
extern uint8_t vk_arena_live[];		/* per byte: 1 when inside a block */

/* ---- descriptors ---- */
extern int vk_fd_base;			/* number of the first one */
#define VK_FD_BASE vk_fd_base
#define VK_FD_MAX 4200
#define VK_FD_FEW 48			/* the default limit */
enum vk_type { VKT_NONE, VKT_PIPE_R, VKT_PIPE_W, VKT_FILE, VKT_INOTIFY,
	       VKT_OTHER };
#define VK_PIPE_SLOTS_MAX 16
struct vk_pipe {
	int used, readers, writers;
	int nslots;			/* pages of the pipe */
	struct { int off, len; uint8_t data[4096]; } slot[VK_PIPE_SLOTS_MAX];
	int nused;			/* slots in use (0 is the oldest) */
	uint64_t total_in, total_out;
};
struct vk_fd {
	enum vk_type type;
	int fdflags, flags;
	struct vk_pipe *pipe;
	void *priv;
	long pos;
	char path[160];
};
extern struct vk_fd vk_fds[VK_FD_MAX];
extern int vk_fd_hi;			/* entries used since the reset */
struct vk_fd *vk_fd_get(int fd);
int vk_fd_alloc(enum vk_type t);	/* -1: too many */
int vk_fd_open_count(void);
struct pollfd;
extern int (*vk_wait_hook)(struct pollfd *p, int timeout);
extern int vk_clock_quiet;	/* reading them is no scheduling point */
extern int vk_pipe_slots;		/* capacity of the next pipes */
extern int vk_fd_limit;			/* descriptors that can be opened */
int vk_fd_readable(int fd);		/* as poll() would report now */
int vk_fd_writable(int fd);
size_t vk_pipe_bytes(int fd);
/* raw pipe model, for the conformance replays */
void vk_pipe_init(struct vk_pipe *p, int nslots);
ssize_t vk_pipe_do_write(struct vk_pipe *p, const void *buf, size_t n);
ssize_t vk_pipe_do_read(struct vk_pipe *p, void *buf, size_t n);

/* the library's view of these calls, for harnesses */
int vk_pipe_create(int fds[2]);
int vk_close(int fd);
ssize_t vk_read(int fd, void *buf, size_t n);
ssize_t vk_write(int fd, const void *buf, size_t n);
int vk_fcntl(int fd, int cmd, ...);

struct pollfd;
int vk_poll(struct pollfd *p, unsigned long n, int timeout);

/* ---- clocks ---- */
extern int64_t vk_mono_ns, vk_real_ns;	/* only the real one may be < 0 */
void vk_advance(int64_t ns);
extern void (*vk_clock_hook)(int clk);	/* before each reading */

/* ---- directory tree (for lstat/opendir) ---- */
#define VK_NODES 4200
struct vk_node {
	int parent;
	char name[300];
	unsigned mode;			/* S_IFxxx */
	int64_t size;
	int target;			/* of a link */
	long crowd;			/* as many more entries */
};
extern struct vk_node vk_tree[VK_NODES]; /* 0 is the root "/" */
extern int vk_tree_n;
extern int vk_tree_dots;		/* 0 first, 1 last, 2 none */
extern int vk_tree_dtype;		/* 1: d_type filled */
extern int vk_tree_meta;		/* devices, numbers, permissions... */
extern int vk_open_flags;		/* all the flags used */
extern int vk_tree_cwd;			/* node of the current directory */
extern int vk_dirs_open;
#define VK_CROWD (VK_NODES - 1)	/* stands for the entry looked up */
extern int64_t vk_crowd_same;	/* files of that size only */
int64_t vk_crowd_size(long i);	/* of entry i, -1: a directory */
int vk_node_add(int parent, const char *name, unsigned mode, int64_t size);
int vk_node_find(const char *path, int follow);

/* ---- harness hooks (return -1 and set errno; 700+ descriptors) ---- */
extern int (*vk_open_hook)(const char *path, int flags, int mode);
extern int (*vk_fsync_hook)(int fd, int data_only);
extern void (*vk_close_hook)(int fd);
extern ssize_t (*vk_read_hook)(int fd, void *buf, size_t n);
extern ssize_t (*vk_getrandom_hook)(void *buf, size_t n, unsigned flags);
extern jmp_buf *vk_abort_jb;	/* where abort() goes */
extern int (*vk_sleep_hook)(const struct timespec *req,
			    struct timespec *rem);
extern int (*vk_settime_hook)(const struct timespec *ts);

/* ---- inotify queue ---- */
struct vk_ino_ev { int wd; uint32_t mask, cookie, len; char name[272]; };
#define VK_INO_EVS 66700
#define VK_INOS 3			/* descriptors with events of their own */
extern struct vk_ino { struct vk_ino_ev q[VK_INO_EVS]; int head, tail; }
	vk_inos[VK_INOS];
#define vk_ino_q vk_inos[0].q
#define vk_ino_head vk_inos[0].head
#define vk_ino_tail vk_inos[0].tail
extern void (*vk_ino_hook)(const char *when); /* an event may arrive */
extern char vk_ino_path[256];
extern uint32_t vk_ino_mask;
extern int vk_ino_watches;

extern int vk_iconv_live;	/* open conversions */

#ifdef __cplusplus
}
#endif
#endif
