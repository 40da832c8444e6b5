/* Small programs over extraction.  They are compiled with the library and analysed, never run. */
#include "squash.h"

extern void lsq_results(const char *a, const char *b, const char *c);

void xt_same(sqfs *fs, const char *p, const char *e)
{
	const char *a = squash_extract(fs, p, e);
	const char *b = squash_extract(fs, p, e);
	lsq_results(a, b, 0);
}

void xt_path(sqfs *fs, const char *p, const char *q, const char *e)
{
	const char *a = squash_extract(fs, p, e);
	const char *b = squash_extract(fs, q, e);
	lsq_results(a, b, 0);
}

void xt_back(sqfs *fs, const char *p, const char *q, const char *e)
{
	const char *a = squash_extract(fs, p, e);
	const char *b = squash_extract(fs, q, e);
	const char *c = squash_extract(fs, p, e);
	lsq_results(a, b, c);
}

void xt_image(sqfs *fs, sqfs *fs2, const char *p, const char *e)
{
	const char *a = squash_extract(fs, p, e);
	const char *b = squash_extract(fs2, p, e);
	const char *c = squash_extract(fs, p, e);
	lsq_results(a, b, c);
}

void xt_exit(sqfs *fs, const char *p, const char *q, const char *e)
{
	const char *a = squash_extract(fs, p, e);
	const char *b = squash_extract(fs, q, e);
	lsq_results(a, b, 0);
	squash_extract_clear_cache();
}
