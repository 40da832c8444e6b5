/* Small programs over the hash table and the stack.  They are compiled with the library and analysed, never run. */
#include "squash.h"
#include "squash/hash.h"
#include "squash/stack.h"

extern void lsq_made(int r, int good);                      /* a container was made, or refused */
extern void lsq_put(int what, long key, long value, int r);
extern void lsq_took(int what, long key, int r);
extern void lsq_seen(int what, long key, int there, long value);
extern void lsq_also(long key, long value);                  /* the rest of the value, 77 */
extern void lsq_size(int what, long n);
extern void lsq_dropped(long value);

#define GET(k) do { g = sqfs_hash_get(&h, k); v = 0; if (g) { v = *(int *)g; } lsq_seen(1, k, g != 0, v); if (g) { lsq_also(k, ((int *)g)[1]); } } while (0)
#define LOOK do { GET(0); GET(1); GET(2); GET(3); GET(5); GET(8); GET(9); GET(13); GET(0x80000001u); GET(0xfffffffdu); lsq_size(1, h.size); } while (0)
#define ADD(k, x) do { v = x; w[0] = x; w[1] = 77; lsq_put(1, k, x, sqfs_hash_add(&h, k, w)); LOOK; } while (0)
#define DEL(k) do { lsq_took(1, k, sqfs_hash_remove(&h, k)); LOOK; } while (0)
#define MAKE(n, i, good) do { n = sqfs_hash_init(&h, sizeof(w), i); lsq_made(n, good); } while (0)

void ct_hash(void)
{
	sqfs_hash h;
	void *g;
	int n, w[2];
	long v;
	MAKE(n, 2, 1);
	if (n)
		return;
	LOOK;
	ADD(1, 11);
	ADD(3, 13);
	ADD(5, 15);
	DEL(3);
	ADD(9, 19);
	ADD(0x80000001u, 21);
	ADD(0xfffffffdu, 23);
	ADD(13, 33);
	ADD(2, 12);
	DEL(13);
	DEL(1);
	DEL(8);
	ADD(0, 10);
	ADD(3, 43);
	ADD(8, 18);
	ADD(1, 31);
	DEL(0);
	DEL(9);
	sqfs_hash_destroy(&h);
}

/* a table made for more than it gets */
void ct_wide(void)
{
	sqfs_hash h;
	void *g;
	int n, w[2];
	long v;
	MAKE(n, 16, 1);
	if (n)
		return;
	ADD(1, 11);
	ADD(0xfffffffdu, 23);
	ADD(13, 33);
	ADD(0x80000001u, 21);
	DEL(1);
	DEL(13);
	sqfs_hash_destroy(&h);
}

/* anything that can fail fails or does not */
void ct_hashfails(void)
{
	sqfs_hash h;
	void *g;
	int n, w[2];
	long v;
	MAKE(n, 1, 1);
	if (n)
		return;
	ADD(1, 11);
	ADD(3, 13);
	sqfs_hash_destroy(&h);
}

void ct_hashbad(void)
{
	sqfs_hash h;
	int n, w[2];
	MAKE(n, 3, 0);
	if (!n)
		sqfs_hash_destroy(&h);
	MAKE(n, 12, 0);
	if (!n)
		sqfs_hash_destroy(&h);
}

struct item { long a; int b; long c; };

static void drop(void *p)
{
	struct item *i = p;
	lsq_dropped(i->a + i->b + i->c);
}

#define SEE(k) do { i = 0; n = sqfs_stack_at(&s, k, &i); v = 0; if (!n) { v = i->a + i->b + i->c; } lsq_seen(2, k, !n, v); } while (0)
#define SLOOK do { SEE(0); SEE(1); SEE(2); SEE(3); SEE(4); SEE(8); SEE(12); SEE(1 << 20); n = sqfs_stack_top(&s, &i); v = 0; if (!n) { v = i->a + i->b + i->c; } lsq_seen(3, 0, !n, v); lsq_size(2, sqfs_stack_size(&s)); } while (0)
#define PUSH(x) do { n = sqfs_stack_push(&s, &i); if (!n) { i->a = x; i->b = 2 * x; i->c = 5 * x; } lsq_put(2, 0, 8 * x, n); SLOOK; } while (0)
#define POP do { n = sqfs_stack_pop(&s); lsq_took(2, 0, n); SLOOK; } while (0)
#define SMAKE(k, f) do { n = sqfs_stack_create(&s, sizeof(*i), k, f); lsq_made(n, 1); } while (0)

void ct_stack(void)
{
	sqfs_stack s;
	struct item *i;
	int n;
	long v;
	SMAKE(0, drop);
	if (n)
		return;
	SLOOK;
	POP;
	PUSH(1);
	PUSH(2);
	POP;
	PUSH(3); PUSH(4); PUSH(5); PUSH(6); PUSH(7); PUSH(8); PUSH(9); PUSH(10); PUSH(11); PUSH(12); PUSH(13); PUSH(14);
	POP; POP; POP; POP; POP;
	PUSH(15);
	sqfs_stack_destroy(&s);
	lsq_size(3, 0);
	sqfs_stack_destroy(&s);
}

/* room from the start, nothing to be done for an item */
void ct_plain(void)
{
	sqfs_stack s;
	struct item *i;
	int n;
	long v;
	SMAKE(2, 0);
	if (n)
		return;
	SLOOK;
	PUSH(1); PUSH(2); PUSH(3); PUSH(4); PUSH(5);
	POP; POP; POP; POP; POP; POP;
	PUSH(6);
	sqfs_stack_destroy(&s);
	lsq_size(3, 0);
	sqfs_stack_init(&s);
	SLOOK;
	sqfs_stack_destroy(&s);
}

void ct_stackfails(void)
{
	sqfs_stack s;
	struct item *i;
	int n;
	long v;
	SMAKE(1, drop);
	if (n)
		return;
	PUSH(1);
	PUSH(2);
	PUSH(3);
	sqfs_stack_destroy(&s);
	lsq_size(3, 0);
}
