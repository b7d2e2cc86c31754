/* C26: the C++ helpers, as operations of a thread */
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <string>
#include <futils/futils.hpp>

extern "C" uint64_t c26_cpp(int k, int inst)
{
	static const char *const paths[][4] = {
		{ "/a/b/c", "x", "/", "d/e//" },
		{ "/usr/lib/", "..", "q/rrr", "" } };
	uint64_t h = k;
	for (int i = 0; i < 4; i++) {
		std::string p = paths[inst & 1][i], r;
		if (k == 0)
			r = futils::fs::dirname(p) + "|" +
				futils::fs::basename(p);
		else if (k == 1)
			r = futils::string::convertToLowerCase(
				p + (inst & 1 ? "QWERTY" : "AbCdEf"));
		else
			r = std::string(futils::string::startsWith(p, "/a") ?
					"s" : "-") +
				(futils::string::endsWith(p, "/") ? "e" : "-");
		for (size_t j = 0; j < r.size(); j++)
			h = h * 1099511628211ull ^ (unsigned char)r[j];
	}
	return h;
}
