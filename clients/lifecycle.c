/* Small programs over the public interface.  They are compiled with the library and analysed, never run. */
#include "squash.h"
#include "squash/hash.h"
#include "squash/stack.h"
#include "squash/traverse.h"
#include "squash/util.h"
#include <stdlib.h>

int vf_open_close(sqfs *fs, const char *path)
{
	int fd = squash_open(fs, path);
	if (fd < 0)
		return -1;
	return squash_close(fd);
}

int vf_open_read_close(sqfs *fs, const char *path, void *buf, sqfs_off_t n)
{
	ssize_t r;
	int fd = squash_open(fs, path);
	if (fd < 0)
		return -1;
	r = squash_read(fd, buf, n);
	squash_close(fd);
	return r < 0;
}

int vf_opendir_closedir(sqfs *fs, const char *path)
{
	SQUASH_DIR *dir = squash_opendir(fs, path);
	if (!dir)
		return -1;
	return squash_closedir(dir);
}

int vf_opendir_readdir_closedir(sqfs *fs, const char *path)
{
	struct SQUASH_DIRENT *a, *b;
	SQUASH_DIR *dir = squash_opendir(fs, path);
	if (!dir)
		return -1;
	a = squash_readdir(dir);
	squash_rewinddir(dir);
	b = squash_readdir(dir);
	squash_closedir(dir);
	return a == b;
}

int vf_image(const uint8_t *image, size_t offset)
{
	sqfs fs;
	if (sqfs_open_image(&fs, image, offset) != SQFS_OK)
		return -1;
	sqfs_destroy(&fs);
	return 0;
}

int vf_traverse_close(sqfs *fs, sqfs_inode_id id)
{
	sqfs_traverse trv;
	if (sqfs_traverse_open(&trv, fs, id) != SQFS_OK)
		return -1;
	sqfs_traverse_close(&trv);
	return 0;
}

/* closing after a failed start must be safe too */
int vf_traverse_close_always(sqfs *fs, sqfs_inode_id id)
{
	sqfs_traverse trv;
	sqfs_err err = sqfs_traverse_open(&trv, fs, id);
	sqfs_traverse_close(&trv);
	return err;
}

int vf_traverse_next(sqfs *fs, sqfs_inode_id id)
{
	sqfs_traverse trv;
	sqfs_err err = SQFS_OK;
	short more = 0;
	if (sqfs_traverse_open(&trv, fs, id) != SQFS_OK)
		return -1;
	more = sqfs_traverse_next(&trv, &err);
	sqfs_traverse_close(&trv);
	return more;
}

int vf_scandir(sqfs *fs, const char *path)
{
	struct SQUASH_DIRENT **list = NULL;
	int n = squash_scandir(fs, path, &list, NULL, NULL);
	int i;
	if (n < 0)
		return -1;
	for (i = 0; i < n; ++i)
		free(list[i]);
	free(list);
	return n;
}

int vf_stack(size_t size)
{
	sqfs_stack s;
	void *p;
	sqfs_stack_init(&s);
	if (sqfs_stack_create(&s, size, 4, NULL) == SQFS_OK)
		sqfs_stack_push(&s, &p);
	sqfs_stack_destroy(&s);
	return 0;
}

int vf_hash(size_t size, void *v)
{
	sqfs_hash h;
	if (sqfs_hash_init(&h, size, 8) != SQFS_OK)
		return -1;
	sqfs_hash_add(&h, 1, v);
	sqfs_hash_destroy(&h);
	return 0;
}

/* a handle that was closed is rejected afterwards */
int vf_close_twice(sqfs *fs, const char *path)
{
	int fd = squash_open(fs, path);
	if (fd < 0)
		return 0;
	if (squash_close(fd) != 0)
		return 0;
	return squash_close(fd);
}

int vf_dir_once(sqfs *fs, const char *path)
{
	SQUASH_DIR *dir = squash_opendir(fs, path);
	if (!dir)
		return -1;
	squash_readdir(dir);
	squash_rewinddir(dir);
	return squash_closedir(dir);
}

int vf_dir_seek(sqfs *fs, const char *path, long at)
{
	struct SQUASH_DIRENT *a;
	SQUASH_DIR *dir = squash_opendir(fs, path);
	if (!dir)
		return -1;
	a = squash_readdir(dir);
	squash_seekdir(dir, at);
	at = squash_telldir(dir);
	squash_closedir(dir);
	return a && at;
}

int vf_open_all(sqfs *fs, const char *path, void *buf, sqfs_off_t n)
{
	struct stat st;
	int fd = squash_open(fs, path);
	if (fd < 0)
		return -1;
	squash_lseek(fd, n, SQUASH_SEEK_SET);
	squash_read(fd, buf, n);
	squash_fstat(fd, &st);
	return squash_close(fd);
}

int vf_traverse_prune(sqfs *fs, sqfs_inode_id id)
{
	sqfs_traverse trv;
	sqfs_err err = SQFS_OK;
	if (sqfs_traverse_open(&trv, fs, id) != SQFS_OK)
		return -1;
	if (sqfs_traverse_next(&trv, &err)) {
		sqfs_traverse_prune(&trv);
		sqfs_traverse_next(&trv, &err);
	}
	sqfs_traverse_close(&trv);
	return err;
}

/* going on after a failed step must be safe too */
int vf_traverse_go_on(sqfs *fs, sqfs_inode_id id)
{
	sqfs_traverse trv;
	sqfs_err err = SQFS_OK;
	if (sqfs_traverse_open(&trv, fs, id) != SQFS_OK)
		return -1;
	if (!sqfs_traverse_next(&trv, &err)) {
		sqfs_traverse_prune(&trv);
		sqfs_traverse_next(&trv, &err);
	}
	sqfs_traverse_close(&trv);
	return err;
}

static int vf_select(const struct SQUASH_DIRENT *e) { return e->d_ino & 1; }
static int vf_compar(const struct SQUASH_DIRENT **a, const struct SQUASH_DIRENT **b) { return (*a)->d_ino < (*b)->d_ino; }

int vf_scandir_some(sqfs *fs, const char *path)
{
	struct SQUASH_DIRENT **list = NULL;
	int n = squash_scandir(fs, path, &list, vf_select, vf_compar);
	int i;
	if (n < 0)
		return -1;
	for (i = 0; i < n; ++i)
		free(list[i]);
	free(list);
	return n;
}

int vf_hash_all(size_t size, void *v, sqfs_hash_key k)
{
	sqfs_hash h;
	int got = 0;
	if (sqfs_hash_init(&h, size, 8) != SQFS_OK)
		return -1;
	sqfs_hash_add(&h, k, v);
	sqfs_hash_add(&h, k + 8, v);
	got = sqfs_hash_get(&h, k) != NULL;
	sqfs_hash_remove(&h, k);
	sqfs_hash_destroy(&h);
	return got;
}

int vf_stack_all(size_t size)
{
	sqfs_stack s;
	void *p;
	sqfs_stack_init(&s);
	if (sqfs_stack_create(&s, size, 4, NULL) == SQFS_OK) {
		sqfs_stack_push(&s, &p);
		sqfs_stack_push(&s, &p);
		sqfs_stack_top(&s, &p);
		sqfs_stack_pop(&s);
	}
	sqfs_stack_destroy(&s);
	return 0;
}

int vf_readlink(sqfs *fs, const char *path)
{
	char buf[100];
	return squash_readlink(fs, path, buf, sizeof(buf));
}

int vf_dir_lowlevel(sqfs *fs, sqfs_inode *inode)
{
	sqfs_dir dir;
	sqfs_dir_entry entry;
	sqfs_name name;
	sqfs_err err = sqfs_dir_open(fs, inode, &dir, 0);
	if (err)
		return err;
	sqfs_dentry_init(&entry, name);
	if (sqfs_dir_next(fs, &dir, &entry, &err))
		return sqfs_dentry_name(&entry)[0];
	return err;
}

int vf_extract(sqfs *fs, const char *path)
{
	return squash_extract(fs, path, "x") == squash_extract(fs, path, "x");
}
