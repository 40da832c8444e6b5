/* Small programs over traversal.  They are compiled with the library and analysed, never run. */
#include "squash.h"

extern void lsq_visit(short more, sqfs_err err, sqfs_traverse *t);
extern void lsq_opened(sqfs_err err);
extern void lsq_pruned(void);

/* a macro, so that what was seen so far is known where the result is looked at */
#define STEP(t) do { more = sqfs_traverse_next(t, &err); lsq_visit(more, err, t); } while (0)

void tv_inode(sqfs *fs, sqfs_inode *inode)
{
	sqfs_traverse t;
	short more;
	sqfs_err err = sqfs_traverse_open_inode(&t, fs, inode);
	lsq_opened(err);
	if (err)
		return;
	STEP(&t);
	STEP(&t);
	STEP(&t);
	STEP(&t);
	sqfs_traverse_close(&t);
}

void tv_deep(sqfs *fs, sqfs_inode *inode)
{
	sqfs_traverse t;
	short more;
	sqfs_err err = sqfs_traverse_open_inode(&t, fs, inode);
	lsq_opened(err);
	if (err)
		return;
	STEP(&t);
	STEP(&t);
	STEP(&t);
	STEP(&t);
	STEP(&t);
	sqfs_traverse_close(&t);
}

void tv_id(sqfs *fs, sqfs_inode_id id)
{
	sqfs_traverse t;
	short more;
	sqfs_err err = sqfs_traverse_open(&t, fs, id);
	lsq_opened(err);
	if (err)
		return;
	STEP(&t);
	sqfs_traverse_close(&t);
}

void tv_prune(sqfs *fs, sqfs_inode *inode)
{
	sqfs_traverse t;
	short more;
	sqfs_err err = sqfs_traverse_open_inode(&t, fs, inode);
	lsq_opened(err);
	if (err)
		return;
	STEP(&t);
	if (more) {
		sqfs_traverse_prune(&t);
		lsq_pruned();
	}
	STEP(&t);
	STEP(&t);
	sqfs_traverse_close(&t);
}

/* as deep as the steps go */
void tv_long(sqfs *fs, sqfs_inode *inode)
{
	sqfs_traverse t;
	short more;
	sqfs_err err = sqfs_traverse_open_inode(&t, fs, inode);
	if (err)
		return;
	STEP(&t);
	STEP(&t);
	STEP(&t);
	STEP(&t);
	STEP(&t);
	STEP(&t);
	STEP(&t);
	STEP(&t);
	STEP(&t);
	STEP(&t);
	STEP(&t);
	STEP(&t);
	STEP(&t);
	STEP(&t);
	sqfs_traverse_close(&t);
}
