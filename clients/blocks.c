/* A small program over block lists.  It is compiled with the library and analysed, never run. */
#include "squash.h"

/* the first block of a list that was opened at an offset */
int bi_first(sqfs *fs, sqfs_inode *inode, sqfs_blocklist *bl, sqfs_off_t start)
{
	int err = sqfs_blockidx_blocklist(fs, inode, bl, start);
	if (err)
		return err;
	return sqfs_blocklist_next(bl);
}

/* ... and the second */
int bi_second(sqfs *fs, sqfs_inode *inode, sqfs_blocklist *bl, sqfs_off_t start)
{
	int err = bi_first(fs, inode, bl, start);
	if (err)
		return err;
	return sqfs_blocklist_next(bl);
}
