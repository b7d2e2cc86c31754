/* C20: the C++ helpers, over all small strings and paths */
#include "mc.h"
#include "vk.h"
#include <stdlib.h>
#include <string.h>
#include <string>
#include <vector>
#include <new>
#include <errno.h>
#include <futils/futils.hpp>

namespace fs = futils::fs;
namespace st = futils::string;
typedef std::string S;

/* every allocation made by the library may fail */
static bool in_call;
static long news;
static const int nomem[] = { ENOMEM, 0 };
void *operator new(size_t n)
{
	void *p;
	if (in_call && vk_inject(VKF_MALLOC, "new", nomem))
		throw std::bad_alloc();
	p = malloc(n ? n : 1);
	if (!p)
		throw std::bad_alloc();
	news++;
	return p;
}
void operator delete(void *p) noexcept
{
	if (p)
		news--;
	free(p);
}
void operator delete(void *p, size_t n) noexcept
{
	operator delete(p);
}

static const char *show(const S &s)
{
	static char b[8][200];
	static int k;
	char *p = b[k++ & 7];
	size_t i, o = 0;
	for (i = 0; i < s.size() && o < 150; i++) {
		unsigned char c = s[i];
		if (c >= 32 && c < 127 && c != '\\')
			p[o++] = c;
		else
			o += sprintf(p + o, "\\x%02x", c);
	}
	p[o] = 0;
	return p;
}

/* ---- the reference ---- */
static bool ref_starts(const S &a, const S &b)
{
	size_t i;
	for (i = 0; i < b.size(); i++)
		if (i >= a.size() || a[i] != b[i])
			return false;
	return true;
}

static bool ref_ends(const S &a, const S &b)
{
	return ref_starts(S(a.rbegin(), a.rend()), S(b.rbegin(), b.rend()));
}

static S ref_lower(const S &a)
{
	S r;
	for (size_t i = 0; i < a.size(); i++)
		r += a[i] >= 'A' && a[i] <= 'Z' ? (char)(a[i] - 'A' + 'a') :
			a[i];
	return r;
}

/* XPG4.2: // may be / */
static void ref_path(const S &p, S *dir, S *base, bool *root2)
{
	size_t e = p.size(), b;
	*root2 = p.size() >= 2 && p[0] == '/' && p[1] == '/' &&
		(p.size() == 2 || p[2] != '/');
	while (e > 0 && p[e - 1] == '/')
		e--;
	if (!e) {
		*base = *dir = p.empty() ? "." : "/";
		return;
	}
	for (b = e; b > 0 && p[b - 1] != '/'; b--)
		;
	*base = p.substr(b, e - b);
	if (!b) {
		*dir = ".";
		return;
	}
	while (b > 0 && p[b - 1] == '/')
		b--;
	*dir = b ? p.substr(0, b) : S("/");
}

static void pair(const S &a, const S &b)
{
	S ca(a.data(), a.size()), cb(b.data(), b.size());
	bool s = st::startsWith(a, b), e = st::endsWith(a, b);
	mc_count_transitions(2);
	mc_n_nontrivial++;
	CHECK(s == ref_starts(a, b), "startsWith(\"%s\", \"%s\") is %d", show(a),
	      show(b), s);
	CHECK(e == ref_ends(a, b), "endsWith(\"%s\", \"%s\") is %d", show(a),
	      show(b), e);
	CHECK(a == ca && b == cb, "an argument of startsWith or endsWith(\"%s\","
	      " \"%s\") was changed", show(ca), show(cb));
}

static void lower(const S &a)
{
	S c(a.data(), a.size()), r = st::convertToLowerCase(a);
	mc_count_transitions(1);
	mc_n_nontrivial++;
	CHECK(r == ref_lower(c), "lower case of \"%s\" (%zu bytes) is \"%s\" "
	      "(%zu bytes)", show(c), c.size(), show(r), r.size());
	CHECK(a == c, "the argument \"%s\" was changed", show(c));
}

static void path(const S &p)
{
	S c(p.data(), p.size()), d, b, gd, gb;
	bool root2;
	ref_path(c, &d, &b, &root2);
	gd = fs::dirname(p);
	CHECK(p == c, "dirname changed its argument \"%s\"", show(c));
	gb = fs::basename(p);
	CHECK(p == c, "basename changed its argument \"%s\"", show(c));
	mc_count_transitions(2);
	mc_n_nontrivial++;
	CHECK(gd == d || (root2 && d == "/" && gd == "//"),
	      "dirname(\"%s\") is \"%s\"", show(p), show(gd));
	CHECK(gb == b || (root2 && p.size() == 2 && gb == "//"),
	      "basename(\"%s\") is \"%s\"", show(p), show(gb));
	CHECK(!vk_mem_live, "dirname or basename of \"%s\" leaks", show(p));
}

static std::vector<S> words(const char *abc, int n, int max)
{
	std::vector<S> v(1, S());
	size_t from = 0;
	for (int l = 0; l < max; l++) {
		size_t to = v.size();
		for (size_t i = from; i < to; i++)
			for (int k = 0; k < n; k++)
				v.push_back(v[i] + abc[k]);
		from = to;
	}
	return v;
}

static void s_pairs(void *arg)
{
	int k = *(int *)arg;
	static std::vector<S> v = words("a\0\xff" "b", 4, 4),
		w = words("aA", 2, mc_thorough ? 9 : 7);
	const std::vector<S> &u = k < 8 ? v : w;
	for (size_t i = k & 7; i < u.size(); i += 8)
		for (size_t j = 0; j < u.size(); j++) {
			mc_case(i, j, k >= 8, 0);
			pair(u[i], u[j]);
		}
	mc_sample("pairs of %zu strings up to \"%s\"", u.size(),
		  show(u.back()));
}

/* every byte at the first and last place; long strings which differ at one
 * place */
static void s_bytes(void *arg)
{
	for (int x = 0; x < 256; x++)
		for (int y = 0; y < 256; y++) {
			mc_case(x, y, 0, 1);
			pair(S(1, x) + "q", S(1, y));
			pair("q" + S(1, x), S(1, y));
			pair(S(1, x) + (char)y, S(1, y));
			pair(S(1, x), S(1, y) + (char)x);
			lower(S(1, x) + (char)y);
			lower("Q" + S(20, x) + (char)y + "Z");
		}
}

static void s_long(void *arg)
{
	static const int len[] = { 7, 8, 15, 16, 17, 22, 23, 24, 31, 32, 33, 63,
		64, 65, 127, 128, 255, 256, 257, 511, 1024, 4096, 65535, 65536,
		65537, 70000, 1050000, 17000000 };
	for (int l : len) {
		if (l > 2000000 && !mc_thorough)
			continue;
		S a(l, 'k');
		for (int i = 0; i < l; i += l < 70 ? 1 : l / 37 + 1)
			a[i] = 'a' + i % 26;
		for (int m = 0; m <= l + 1; m += m < 70 || m >= l - 5 ? 1 :
		     l - 5 - m < 100 ? 7 : l / 11 + 1) {
			S p = a.substr(0, m), s = a.substr(l > m ? l - m : 0);
			if (m > l) {
				p += 'k';
				s = 'k' + s;
			}
			mc_case(l, m, 0, 2);
			pair(a, p);
			pair(a, s);
			for (int at = 0; at < m; at += l < 70 ? 1 :
			     at + 2 >= m ? 1 : m / 3 + 1) {
				S q = p, t = s;
				q[at] ^= 0x20;
				t[at] ^= 0x20;
				pair(a, q);
				pair(a, t);
				q[at] = 0;
				pair(a, q);
			}
		}
		for (int at = 0; at < l; at += l < 70 ? 1 : l / 19 + 1) {
			S u = a;
			u[at] = 'Q';
			lower(u);
			u[at] = 0;
			u[l - 1] = 'Z';
			lower(u);
		}
	}
}

static void s_lower(void *arg)
{
	std::vector<S> v = words("aZA@[\0\xc0\xdf", 8, mc_thorough ? 6 : 5);
	for (size_t i = 0; i < v.size(); i++) {
		mc_case(i, 0, 0, 3);
		lower(v[i]);
	}
}

static void s_paths(void *arg)
{
	int k = *(int *)arg;
	static std::vector<S> v = words("/a.b", 4, mc_thorough ? 10 : 9),
		w = words("/.a\\ \xff~", 7, 6);
	const std::vector<S> &u = k < 8 ? v : w;
	for (size_t i = k & 7; i < u.size(); i += 8) {
		mc_case(i, k >= 8, 0, 4);
		path(u[i]);
	}
	mc_sample("%zu paths up to \"%s\"", u.size(), show(u.back()));
}

/* long components and runs of slashes, every byte */
static void s_longpaths(void *arg)
{
	static const int len[] = { 1, 2, 3, 7, 14, 15, 16, 17, 31, 32, 63, 64,
		127, 128, 254, 255, 256, 257, 1023, 1024, 4094, 4095, 4096,
		4097, 5000, 65536, 70000, 1050000 };
	static const char *pre[] = { "", "/", "//", "///", "./", "../", "a/" };
	for (int x = 1; x < 256; x++) {
		S c(1, x);
		mc_case(x, 0, 0, 5);
		path(c);
		path("a" + c);
		path(c + "/b");
		path("/" + c);
		path("a/" + c + "/b" + c + "/");
	}
	for (int l : len)
		for (const char *p : pre)
			for (int k = 0; k < 7; k++) {
				S c(l, 'c'), s(l, '/');
				mc_case(l, k, p[0] + 256 * strlen(p), 6);
				path(k == 0 ? p + c : k == 1 ? p + c + "/" :
				     k == 2 ? p + c + "/d" : k == 3 ? p + S("d/") + c :
				     k == 4 ? p + c + s + "d" : k == 5 ?
				     p + S("d") + s : p + s + c + "//e" + s);
			}
}

/* a shortage of memory: an exception or the exact answer, nothing kept, and
 * the next call works */
static void s_memory(void *arg)
{
	static const int len[] = { 0, 1, 15, 16, 17, 40, 300, 5000 };
	static const char *pre[] = { "", "/", "dir/", "a/b/", "//x//" },
		*post[] = { "", "/", "/z", "/Zz//" };
	int call = mc_choose(3, "call"), l = len[mc_choose(8, "length")];
	int i = mc_choose(5, "before"), j = mc_choose(4, "after");
	S p = pre[i] + S(l, 'Q') + post[j], c(p.data(), p.size()), d, b, e;
	static const char *names[] = { "dirname", "basename",
		"convertToLowerCase" };
	bool root2, thrown = false;
	long before;
	mc_case(call, l, i, 7);
	ref_path(c, &d, &b, &root2);
	e = call == 0 ? d : call == 1 ? b : ref_lower(c);
	before = news;
	{
		S got;
		vk_errs[VKF_MALLOC] = nomem;
		vk_fault_mask = VKM(VKF_MALLOC);
		vk_fault_budget = 2;
		in_call = true;
		try {
			got = call == 0 ? fs::dirname(p) : call == 1 ?
				fs::basename(p) : st::convertToLowerCase(p);
		} catch (const std::bad_alloc &) {
			thrown = true;
		} catch (const std::exception &) {
			thrown = true;
		}
		in_call = false;
		vk_fault_mask = 0;
		CHECK(thrown || got == e || (root2 && got == "//"),
		      "%s(\"%s\") is \"%s\" %s", names[call], show(p),
		      show(got), vk_faults_done ?
		      "when memory is short" : "");
	}
	CHECK(!thrown || vk_faults_done, "%s(\"%s\") throws though nothing "
	      "failed", names[call], show(p));
	CHECK(p == c, "%s changed its argument \"%s\"", names[call], show(c));
	CHECK(!vk_mem_live, "%s(\"%s\") keeps %d blocks when memory is short",
	      names[call], show(p), vk_mem_live);
	CHECK(news == before, "%s(\"%s\") keeps %ld objects when memory is "
	      "short", names[call], show(p), news - before);
	path(p);
	lower(p);
	mc_outcome(vk_faults_done * 8 + call * 2 + thrown);
}

int main(int argc, char **argv)
{
	static int ids[16];
	char name[40];
	mc_init(argc, argv);
	mc_set_reset(vk_reset);
	for (int i = 0; i < 16; i++) {
		ids[i] = i;
		snprintf(name, sizeof(name), "pairs %d", i);
		mc_explore(name, s_pairs, &ids[i]);
		snprintf(name, sizeof(name), "paths %d", i);
		mc_explore(name, s_paths, &ids[i]);
	}
	mc_explore("bytes", s_bytes, NULL);
	mc_explore("long", s_long, NULL);
	mc_explore("lower", s_lower, NULL);
	mc_explore("memory", s_memory, NULL);
	mc_explore("long paths", s_longpaths, NULL);
	return mc_end();
}
