/* C19: every error code has a text of its own. */
#include "model.h"
#include "intel-pt.h"

static int same(const char *a, const char *b)
{
	int i;
	for (i = 0; i < 200; i++) {
		if (a[i] != b[i])
			return 0;
		if (!a[i])
			return 1;
	}
	return 1;
}

void spec_errstr(void)
{
	static const int codes[] = { CODES };
	const char *text[sizeof(codes) / sizeof(codes[0])], *none;
	unsigned i, j;

	none = pt_errstr((enum pt_error_code) 1000);
	ai_assert(none != NULL, "an undefined code has a text, too");
	for (i = 0; i < sizeof(codes) / sizeof(codes[0]); i++) {
		text[i] = pt_errstr((enum pt_error_code) codes[i]);
		ai_assert(text[i] != NULL, "every error code has a text");
		ai_assert(text[i][0] != 0, "every error code has a text");
		ai_assert(!same(text[i], none), "every error code has a text");
		for (j = 0; j < i; j++)
			ai_assert(!same(text[i], text[j]), "no two error codes share a text");
	}
	ai_reach("the texts were compared");
}
