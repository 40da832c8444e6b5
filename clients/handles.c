/* Small programs over handles.  They are compiled with the library and analysed, never run. */
#include "squash.h"

extern void lsq_number(int n);                 /* the number the system hands out next */
extern void lsq_opened(int n, void *stream, const char *path);
extern void lsq_closed(int n, int r);
extern void lsq_at(int n, struct squash_file *file);
extern void lsq_found(void *what, struct squash_file *file, struct squash_file *found);

/* macros, so that what was done so far is known where the result is looked at */
#define AT(k) do { f = squash_vfd_file(k); lsq_at(k, f); if (f) { lsq_found(f->payload, f, squash_find_entry(f->payload)); } } while (0)
#define LOOK do { AT(-1); AT(3); AT(4); AT(5); AT(39); AT(41); AT(1 << 30); lsq_found(&f, 0, squash_find_entry(&f)); } while (0)
#define OPEN(k) do { lsq_number(k); n = squash_open(fs, path); lsq_opened(n, 0, path); LOOK; } while (0)
#define CLOSE(k) do { n = squash_close(k); lsq_closed(k, n); LOOK; } while (0)
#define OPENDIR(d, k) do { lsq_number(k); d = squash_opendir(fs, path); lsq_opened(d ? squash_dirfd(d) : -1, d, path); if (d) { lsq_found(d, squash_vfd_file(k), squash_find_entry(d)); } LOOK; } while (0)
#define CLOSEDIR(d, k) do { n = squash_closedir(d); lsq_closed(k, n); LOOK; } while (0)

/* closed in the order they were opened, numbers used again */
void hd_order(sqfs *fs, const char *path)
{
	struct squash_file *f;
	int n;
	OPEN(3);
	OPEN(4);
	OPEN(5);
	CLOSE(3);
	CLOSE(4);
	OPEN(3);
	CLOSE(5);
	OPEN(4);
	CLOSE(4);
	CLOSE(3);
}

/* closed the other way round, and in between */
void hd_back(sqfs *fs, const char *path)
{
	struct squash_file *f;
	int n;
	OPEN(5);
	OPEN(3);
	OPEN(4);
	CLOSE(4);
	CLOSE(4);
	CLOSE(5);
	OPEN(4);
	CLOSE(4);
	CLOSE(3);
	OPEN(5);
	CLOSE(5);
}

/* the table has to grow while handles are open */
void hd_grow(sqfs *fs, const char *path)
{
	struct squash_file *f;
	int n;
	OPEN(3);
	OPEN(39);
	OPEN(41);
	OPEN(5);
	CLOSE(41);
	OPEN(41);
	CLOSE(3);
	CLOSE(5);
	CLOSE(41);
	CLOSE(39);
}

/* streams are handles too */
void hd_dirs(sqfs *fs, const char *path)
{
	struct squash_file *f;
	SQUASH_DIR *a, *b;
	int n;
	OPENDIR(a, 3);
	OPENDIR(b, 4);
	OPEN(5);
	CLOSEDIR(a, 3);
	OPENDIR(a, 3);
	CLOSEDIR(b, 4);
	CLOSE(5);
	CLOSEDIR(a, 3);
}

/* one handle is open, and an open that fails somewhere, or not */
void hd_fails(sqfs *fs, const char *path)
{
	struct squash_file *f;
	int n;
	OPEN(3);
	if (n < 0)
		return;
	OPEN(41);
}

void hd_dirfails(sqfs *fs, const char *path)
{
	struct squash_file *f;
	SQUASH_DIR *a;
	int n;
	OPEN(3);
	if (n < 0)
		return;
	OPENDIR(a, 4);
}

/* a stream read on and on */
void hd_many(sqfs *fs, const char *path)
{
	struct squash_file *f;
	SQUASH_DIR *a;
	int n;
	lsq_number(3);
	a = squash_opendir(fs, path);
	if (!a)
		return;
#define READ5 squash_readdir(a); squash_readdir(a); squash_readdir(a); squash_readdir(a); squash_readdir(a)
#define READ25 READ5; READ5; READ5; READ5; READ5
	READ5; READ5; READ5;
	squash_rewinddir(a);
	READ25; READ25; READ25; READ25; READ25;
	lsq_closed(3, squash_closedir(a));
}

/* a directory with more entries than a scan first makes room for */
void sc_many(sqfs *fs, const char *path)
{
	struct SQUASH_DIRENT **list = 0;
	squash_scandir(fs, path, &list, 0, 0);
}
