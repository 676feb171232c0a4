// The macro containers, instantiated for several element types. Compiled with
// the same instrumentation as the library.
#include "w_cont.h"
#include "sc_array.h"
#include "sc_map.h"
#include "sc_queue.h"

struct rec {
	uint64_t a;
	uint16_t b;
	uint64_t c;
};
typedef struct rec rec;
struct tri {
	unsigned char b[3];
};
typedef struct tri tri;

sc_array_def(rec, rec);
sc_array_def(tri, tri);
sc_array_def(uint8_t, 8);
sc_queue_def(rec, rec);
sc_queue_def(tri, tri);
sc_queue_def(uint8_t, 8);

static rec to_rec(uint64_t v)
{
	rec r = {v, (uint16_t) v, ~v};
	return r;
}
static uint64_t of_rec(rec r)
{
	return r.c == ~r.a && r.b == (uint16_t) r.a ? r.a : ~UINT64_C(0);
}
static tri to_tri(uint64_t v)
{
	tri t = {{(unsigned char) v, (unsigned char) (v >> 8), (unsigned char) (v >> 16)}};
	return t;
}
static uint64_t of_tri(tri t)
{
	return t.b[0] | (uint64_t) t.b[1] << 8 | (uint64_t) t.b[2] << 16;
}
#define to_int(v) ((int) (v))
#define of_int(v) ((uint64_t) (uint32_t) (v))
#define to_64(v) ((uint64_t) (v))
#define of_64(v) ((uint64_t) (v))
#define to_8(v) ((uint8_t) (v))
#define of_8(v) ((uint64_t) (v))
#define to_ptr(v) ((void *) (uintptr_t) (v))
#define of_ptr(v) ((uint64_t) (uintptr_t) (v))
#define to_double(v) ((double) (v))
#define of_double(v) ((uint64_t) (v))

#define ARRAY(T, n, M)                                                         \
	static int a_cmp_##n(const void *x, const void *y)                     \
	{                                                                      \
		uint64_t p = of_##n(*(T *) x) >> 2, q = of_##n(*(T *) y) >> 2; \
		return p < q ? -1 : p > q;                                     \
	}                                                                      \
	typedef struct sc_array_##n A_##n;                                     \
	static void a_init_##n(void *p) { A_##n *x = p; sc_array_init(x); }    \
	static void a_term_##n(void *p) { A_##n *x = p; sc_array_term(x); }    \
	static void a_add_##n(void *p, uint64_t v)                             \
	{                                                                      \
		A_##n *x = p;                                                  \
		sc_array_add(x, to_##n(v));                                    \
	}                                                                      \
	static bool a_oom_##n(void *p) { A_##n *x = p; return sc_array_oom(x); } \
	static void a_clear_##n(void *p) { A_##n *x = p; sc_array_clear(x); }  \
	static uint64_t a_at_##n(void *p, size_t i)                            \
	{                                                                      \
		A_##n *x = p;                                                  \
		return of_##n(sc_array_at(x, i));                              \
	}                                                                      \
	static size_t a_size_##n(void *p) { A_##n *x = p; return sc_array_size(x); } \
	/* the names that a caller gives to its variables are no matter */    \
	static void a_del_##n(void *p, size_t i)                               \
	{                                                                      \
		A_##n *x = p;                                                  \
		size_t idx = i;                                                \
		sc_array_del(x, idx);                                          \
	}                                                                      \
	static void a_delu_##n(void *p, size_t i)                              \
	{                                                                      \
		A_##n *x = p;                                                  \
		size_t idx = i;                                                \
		sc_array_del_unordered(x, idx);                                \
	}                                                                      \
	/* an element that is computed from the array itself */               \
	static void a_own_##n(void *p, int how, size_t i)                      \
	{                                                                      \
		A_##n *x = p;                                                  \
		if (how == 0)                                                  \
			sc_array_add(x, sc_array_at(x, i));                    \
		else if (how == 1)                                             \
			sc_array_add(x, sc_array_last(x));                     \
		else                                                           \
			sc_array_add(x, to_##n(sc_array_size(x)));             \
	}                                                                      \
	static void a_dell_##n(void *p) { A_##n *x = p; sc_array_del_last(x); } \
	static uint64_t a_last_##n(void *p)                                    \
	{                                                                      \
		A_##n *x = p;                                                  \
		return of_##n(sc_array_last(x));                               \
	}                                                                      \
	static void a_sort_##n(void *p) { A_##n *x = p; sc_array_sort(x, a_cmp_##n); } \
	static size_t a_each_##n(void *p, uint64_t *out, size_t max, bool cont) \
	{                                                                      \
		A_##n *x = p;                                                  \
		T e;                                                           \
		size_t c = 0;                                                  \
		bool over = false;                                             \
		uint64_t at = 0;                                               \
		sc_array_foreach (x, e) {                                      \
			if (over)                                              \
				return c + 1; /* goes on after a break */      \
			if (c == max) {                                        \
				over = true;                                   \
				at = of_##n(e);                                \
				break;                                         \
			}                                                      \
			if (cont && (of_##n(e) & 1))                           \
				continue;                                      \
			out[c++] = of_##n(e);                                  \
		}                                                              \
		return over && of_##n(e) != at ? c + 1 : c;                    \
	}                                                                      \
	static void a_set_##n(void *p, size_t i, uint64_t v)                   \
	{                                                                      \
		A_##n *x = p;                                                  \
		sc_array_at(x, i) = to_##n(v);                                 \
	}

ARRAY(int, int, 0)
ARRAY(uint64_t, 64, 0)
ARRAY(uint8_t, 8, 0)
ARRAY(rec, rec, 0)
ARRAY(tri, tri, 0)
ARRAY(void *, ptr, 0)
ARRAY(double, double, 0)

#define AOPS(T, n, m)                                                          \
	{                                                                      \
		#n, sizeof(struct sc_array_##n), sizeof(T), m, a_init_##n,     \
			a_term_##n, a_add_##n, a_oom_##n, a_clear_##n,         \
			a_at_##n, a_size_##n, a_del_##n, a_delu_##n,           \
			a_dell_##n, a_last_##n, a_sort_##n, a_each_##n,        \
			a_set_##n, a_own_##n                                   \
	}
const struct w_array_ops w_arrays[] = {
	AOPS(int, int, 0x7fffffff), AOPS(uint64_t, 64, ~UINT64_C(0)),
	AOPS(uint8_t, 8, 0xff),	    AOPS(rec, rec, ~UINT64_C(0) >> 1),
	AOPS(tri, tri, 0xffffff),   AOPS(void *, ptr, ~UINT64_C(0)),
	AOPS(double, double, 0xffffffffffff)};
const int w_arrays_n = 7;

#define QUEUE(T, n)                                                            \
	typedef struct sc_queue_##n Q_##n;                                     \
	static void q_init_##n(void *p) { Q_##n *x = p; sc_queue_init(x); }    \
	static void q_term_##n(void *p) { Q_##n *x = p; sc_queue_term(x); }    \
	static bool q_oom_##n(void *p) { Q_##n *x = p; return sc_queue_oom(x); } \
	static void q_clear_##n(void *p) { Q_##n *x = p; sc_queue_clear(x); }  \
	static size_t q_size_##n(void *p) { Q_##n *x = p; return sc_queue_size(x); } \
	static bool q_empty_##n(void *p) { Q_##n *x = p; return sc_queue_empty(x); } \
	static uint64_t q_at_##n(void *p, size_t i)                            \
	{                                                                      \
		Q_##n *x = p;                                                  \
		return of_##n(sc_queue_at(x, i));                              \
	}                                                                      \
	static uint64_t q_pf_##n(void *p)                                      \
	{                                                                      \
		Q_##n *x = p;                                                  \
		return of_##n(sc_queue_peek_first(x));                         \
	}                                                                      \
	static uint64_t q_pl_##n(void *p)                                      \
	{                                                                      \
		Q_##n *x = p;                                                  \
		return of_##n(sc_queue_peek_last(x));                          \
	}                                                                      \
	static void q_af_##n(void *p, uint64_t v)                              \
	{                                                                      \
		Q_##n *x = p;                                                  \
		sc_queue_add_first(x, to_##n(v));                              \
	}                                                                      \
	static void q_al_##n(void *p, uint64_t v)                              \
	{                                                                      \
		Q_##n *x = p;                                                  \
		sc_queue_add_last(x, to_##n(v));                               \
	}                                                                      \
	/* an element that is computed from the queue itself */               \
	static void q_own_##n(void *p, bool first, int how, size_t i)          \
	{                                                                      \
		Q_##n *x = p;                                                  \
		if (first && how == 0)                                         \
			sc_queue_add_first(x, sc_queue_at(x, i));              \
		else if (first && how == 1)                                    \
			sc_queue_add_first(x, sc_queue_peek_first(x));         \
		else if (first && how == 2)                                    \
			sc_queue_add_first(x, sc_queue_peek_last(x));          \
		else if (first && how == 3)                                    \
			sc_queue_add_first(x, to_##n(sc_queue_size(x)));       \
		else if (first)                                                \
			sc_queue_add_first(x, sc_queue_del_last(x));           \
		else if (how == 0)                                             \
			sc_queue_add_last(x, sc_queue_at(x, i));               \
		else if (how == 1)                                             \
			sc_queue_add_last(x, sc_queue_peek_first(x));          \
		else if (how == 2)                                             \
			sc_queue_add_last(x, sc_queue_peek_last(x));           \
		else if (how == 3)                                             \
			sc_queue_add_last(x, to_##n(sc_queue_size(x)));        \
		else                                                           \
			sc_queue_add_last(x, sc_queue_del_first(x));           \
	}                                                                      \
	static uint64_t q_df_##n(void *p)                                      \
	{                                                                      \
		Q_##n *x = p;                                                  \
		T e = sc_queue_del_first(x);                                   \
		return of_##n(e);                                              \
	}                                                                      \
	static uint64_t q_dl_##n(void *p)                                      \
	{                                                                      \
		Q_##n *x = p;                                                  \
		T e = sc_queue_del_last(x);                                    \
		return of_##n(e);                                              \
	}                                                                      \
	static size_t q_each_##n(void *p, uint64_t *out, size_t max, bool cont) \
	{                                                                      \
		Q_##n *x = p;                                                  \
		T e;                                                           \
		size_t c = 0;                                                  \
		bool over = false;                                             \
		uint64_t at = 0;                                               \
		sc_queue_foreach (x, e) {                                      \
			if (over)                                              \
				return c + 1; /* goes on after a break */      \
			if (c == max) {                                        \
				over = true;                                   \
				at = of_##n(e);                                \
				break;                                         \
			}                                                      \
			if (cont && (of_##n(e) & 1))                           \
				continue;                                      \
			out[c++] = of_##n(e);                                  \
		}                                                              \
		return over && of_##n(e) != at ? c + 1 : c;                    \
	}                                                                      \
	static size_t q_walk_##n(void *p, uint64_t *out)                       \
	{                                                                      \
		Q_##n *x = p;                                                  \
		size_t c = 0;                                                  \
		for (size_t i = sc_queue_first(x); i != sc_queue_last(x);      \
		     i = sc_queue_next(x, i))                                  \
			out[c++] = of_##n(x->elems[i]);                        \
		return c;                                                      \
	}

QUEUE(int, int)
QUEUE(uint64_t, 64)
QUEUE(uint8_t, 8)
QUEUE(rec, rec)
QUEUE(tri, tri)
QUEUE(void *, ptr)
QUEUE(double, double)

#define QOPS(T, n, m)                                                          \
	{                                                                      \
		#n, sizeof(struct sc_queue_##n), sizeof(T), m, q_init_##n,     \
			q_term_##n, q_oom_##n, q_clear_##n, q_size_##n,        \
			q_empty_##n, q_at_##n, q_pf_##n, q_pl_##n, q_af_##n,   \
			q_al_##n, q_df_##n, q_dl_##n, q_each_##n, q_walk_##n,  \
			q_own_##n                                              \
	}
const struct w_queue_ops w_queues[] = {
	QOPS(int, int, 0x7fffffff), QOPS(uint64_t, 64, ~UINT64_C(0)),
	QOPS(uint8_t, 8, 0xff),	    QOPS(rec, rec, ~UINT64_C(0) >> 1),
	QOPS(tri, tri, 0xffffff),   QOPS(void *, ptr, ~UINT64_C(0)),
	QOPS(double, double, 0xffffffffffff)};
const int w_queues_n = 7;

#define MAP(n, K, V)                                                           \
	static bool m_init_##n(void *p, uint32_t c, uint32_t l)                \
	{                                                                      \
		return sc_map_init_##n(p, c, l);                               \
	}                                                                      \
	static void m_term_##n(void *p) { sc_map_term_##n(p); }                \
	static uint32_t m_size_##n(void *p) { return sc_map_size_##n(p); }     \
	static void m_clear_##n(void *p) { sc_map_clear_##n(p); }              \
	static uint64_t m_put_##n(void *p, uint64_t k, uint64_t v)             \
	{                                                                      \
		return (uint64_t) sc_map_put_##n(p, (K) k, (V) v);             \
	}                                                                      \
	static uint64_t m_get_##n(void *p, uint64_t k)                         \
	{                                                                      \
		return (uint64_t) sc_map_get_##n(p, (K) k);                    \
	}                                                                      \
	static uint64_t m_del_##n(void *p, uint64_t k)                         \
	{                                                                      \
		return (uint64_t) sc_map_del_##n(p, (K) k);                    \
	}                                                                      \
	static bool m_found_##n(void *p)                                       \
	{                                                                      \
		struct sc_map_##n *m = p;                                      \
		return sc_map_found(m);                                        \
	}                                                                      \
	static bool m_oom_##n(void *p)                                         \
	{                                                                      \
		struct sc_map_##n *m = p;                                      \
		return sc_map_oom(m);                                          \
	}                                                                      \
	static size_t m_each_##n(void *p, uint64_t *ko, uint64_t *vo, size_t max) \
	{                                                                      \
		struct sc_map_##n *m = p;                                      \
		K k;                                                           \
		V v;                                                           \
		size_t c = 0;                                                  \
		bool over = false;                                             \
		uint64_t ak = 0, av = 0;                                       \
		sc_map_foreach (m, k, v) {                                     \
			if (over)                                              \
				return c + 1; /* goes on after a break */      \
			if (c == max) {                                        \
				over = true;                                   \
				ak = (uint64_t) k, av = (uint64_t) v;          \
				break;                                         \
			}                                                      \
			ko[c] = (uint64_t) k;                                  \
			vo[c++] = (uint64_t) v;                                \
		}                                                              \
		return over && ((uint64_t) k != ak || (uint64_t) v != av) ? c + 1 : c; \
	}                                                                      \
	static size_t m_eachk_##n(void *p, uint64_t *ko, size_t max)           \
	{                                                                      \
		struct sc_map_##n *m = p;                                      \
		K k;                                                           \
		size_t c = 0;                                                  \
		bool over = false;                                             \
		uint64_t ak = 0;                                               \
		sc_map_foreach_key (m, k) {                                    \
			if (over)                                              \
				return c + 1; /* goes on after a break */      \
			if (c == max) {                                        \
				over = true;                                   \
				ak = (uint64_t) k;                             \
				break;                                         \
			}                                                      \
			ko[c++] = (uint64_t) k;                                \
		}                                                              \
		return over && (uint64_t) k != ak ? c + 1 : c;                 \
	}                                                                      \
	static size_t m_eachv_##n(void *p, uint64_t *vo, size_t max)           \
	{                                                                      \
		struct sc_map_##n *m = p;                                      \
		V v;                                                           \
		size_t c = 0;                                                  \
		bool over = false;                                             \
		uint64_t av = 0;                                               \
		sc_map_foreach_value (m, v) {                                  \
			if (over)                                              \
				return c + 1; /* goes on after a break */      \
			if (c == max) {                                        \
				over = true;                                   \
				av = (uint64_t) v;                             \
				break;                                         \
			}                                                      \
			vo[c++] = (uint64_t) v;                                \
		}                                                              \
		return over && (uint64_t) v != av ? c + 1 : c;                 \
	}

MAP(int, int, int)
MAP(intv, int, void *)
MAP(ints, int, const char *)
MAP(ll, long long, long long)
MAP(llv, long long, void *)
MAP(lls, long long, const char *)
MAP(32, uint32_t, uint32_t)
MAP(64, uint64_t, uint64_t)
MAP(64v, uint64_t, void *)
MAP(64s, uint64_t, const char *)
MAP(str, const char *, const char *)
MAP(sv, const char *, void *)
MAP(s64, const char *, uint64_t)
MAP(sll, const char *, long long)

#define MOPS(n, km, vm, s)                                                     \
	{                                                                      \
		#n, sizeof(struct sc_map_##n), km, vm, s, m_init_##n,          \
			m_term_##n, m_size_##n, m_clear_##n, m_put_##n,        \
			m_get_##n, m_del_##n, m_found_##n, m_oom_##n,          \
			m_each_##n, m_eachk_##n, m_eachv_##n                   \
	}
#define I31 UINT64_C(0x7fffffff)
#define I32 UINT64_C(0xffffffff)
#define I64 (~UINT64_C(0))
const struct w_map_ops w_maps[] = {
	MOPS(int, I31, I31, 0), MOPS(intv, I31, I64, 0), MOPS(ints, I31, I64, 0),
	MOPS(ll, I64, I64, 0),	MOPS(llv, I64, I64, 0),	 MOPS(lls, I64, I64, 0),
	MOPS(32, I32, I32, 0),	MOPS(64, I64, I64, 0),	 MOPS(64v, I64, I64, 0),
	MOPS(64s, I64, I64, 0), MOPS(str, I64, I64, 1),	 MOPS(sv, I64, I64, 1),
	MOPS(s64, I64, I64, 1), MOPS(sll, I64, I64, 1)};
const int w_maps_n = 14;
