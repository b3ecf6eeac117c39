/* Dump function prototypes (with isl's ownership annotations), struct fields
 * and enumerators of one translation unit, as seen by clang.
 */
#include <clang-c/Index.h>
#include <stdio.h>
#include <string.h>
#include <stdlib.h>

static void jstr(CXString s)
{
	const char *p = clang_getCString(s);
	putchar('"');
	for (; p && *p; ++p) {
		if (*p == '"' || *p == '\\') putchar('\\');
		if (*p == '\n') { fputs("\\n", stdout); continue; }
		putchar(*p);
	}
	putchar('"');
	clang_disposeString(s);
}

struct pc { int n; int what; };

static enum CXChildVisitResult annots(CXCursor c, CXCursor par, CXClientData d)
{
	struct pc *p = d;
	if (clang_getCursorKind(c) == CXCursor_AnnotateAttr) {
		if (p->n++) putchar(',');
		jstr(clang_getCursorSpelling(c));
	}
	return CXChildVisit_Continue;
}

static void dump_annots(CXCursor c)
{
	struct pc p = { 0 };
	putchar('[');
	clang_visitChildren(c, annots, &p);
	putchar(']');
}

static enum CXChildVisitResult cbparams(CXCursor c, CXCursor par, CXClientData d)
{
	struct pc *p = d;
	if (clang_getCursorKind(c) == CXCursor_ParmDecl) {
		if (p->n++) putchar(',');
		printf("{\"t\":"); jstr(clang_getTypeSpelling(clang_getCursorType(c)));
		printf(",\"ct\":"); jstr(clang_getTypeSpelling(clang_getCanonicalType(clang_getCursorType(c))));
		printf(",\"a\":"); dump_annots(c); putchar('}');
	}
	return CXChildVisit_Continue;
}

static enum CXChildVisitResult params(CXCursor c, CXCursor par, CXClientData d)
{
	struct pc *p = d;
	if (clang_getCursorKind(c) == CXCursor_ParmDecl) {
		struct pc q = { 0 };
		CXType t = clang_getCanonicalType(clang_getCursorType(c));
		if (p->n++) putchar(',');
		printf("{\"n\":"); jstr(clang_getCursorSpelling(c));
		printf(",\"t\":"); jstr(clang_getTypeSpelling(clang_getCursorType(c)));
		printf(",\"ct\":"); jstr(clang_getTypeSpelling(t));
		printf(",\"a\":"); dump_annots(c);
		if (t.kind == CXType_Pointer && clang_getPointeeType(t).kind == CXType_FunctionProto) {
			printf(",\"cbr\":");
			jstr(clang_getTypeSpelling(clang_getResultType(clang_getPointeeType(t))));
			printf(",\"cb\":[");
			clang_visitChildren(c, cbparams, &q);
			putchar(']');
		}
		putchar('}');
	}
	return CXChildVisit_Continue;
}

static enum CXChildVisitResult fields(CXCursor c, CXCursor par, CXClientData d)
{
	struct pc *p = d;
	if (clang_getCursorKind(c) == CXCursor_FieldDecl) {
		struct pc q = { 0 };
		CXType t = clang_getCanonicalType(clang_getCursorType(c));
		if (p->n++) putchar(',');
		printf("{\"n\":"); jstr(clang_getCursorSpelling(c));
		printf(",\"t\":"); jstr(clang_getTypeSpelling(clang_getCursorType(c)));
		printf(",\"ct\":"); jstr(clang_getTypeSpelling(t));
		printf(",\"o\":%lld", clang_Cursor_getOffsetOfField(c) / 8);
		printf(",\"a\":"); dump_annots(c);
		if (t.kind == CXType_Pointer && clang_getPointeeType(t).kind == CXType_FunctionProto) {
			printf(",\"cbr\":");
			jstr(clang_getTypeSpelling(clang_getResultType(clang_getPointeeType(t))));
			printf(",\"cb\":[");
			clang_visitChildren(c, cbparams, &q);
			putchar(']');
		}
		putchar('}');
	}
	return CXChildVisit_Continue;
}

static enum CXChildVisitResult enums(CXCursor c, CXCursor par, CXClientData d)
{
	if (clang_getCursorKind(c) == CXCursor_EnumConstantDecl) {
		printf("{\"k\":\"e\",\"n\":"); jstr(clang_getCursorSpelling(c));
		printf(",\"v\":%lld}\n", clang_getEnumConstantDeclValue(c));
	}
	return CXChildVisit_Continue;
}

static int in_repo(CXCursor c, CXString *fn, unsigned *line)
{
	CXFile f;
	clang_getExpansionLocation(clang_getCursorLocation(c), &f, line, NULL, NULL);
	*fn = clang_getFileName(f);
	return 1;
}

static enum CXChildVisitResult top(CXCursor c, CXCursor par, CXClientData d)
{
	enum CXCursorKind k = clang_getCursorKind(c);
	CXString fn;
	unsigned line;
	if (k == CXCursor_FunctionDecl) {
		struct pc p = { 0 };
		CXType ft = clang_getCursorType(c);
		in_repo(c, &fn, &line);
		if (strncmp(clang_getCString(fn) ? clang_getCString(fn) : "", "/usr/", 5) == 0) {
			clang_disposeString(fn);
			return CXChildVisit_Continue;
		}
		printf("{\"k\":\"f\",\"n\":"); jstr(clang_getCursorSpelling(c));
		printf(",\"static\":%d,\"def\":%d", clang_Cursor_getStorageClass(c) == CX_SC_Static,
			clang_isCursorDefinition(c));
		printf(",\"file\":"); jstr(fn); printf(",\"line\":%u", line);
		printf(",\"r\":"); jstr(clang_getTypeSpelling(clang_getCursorResultType(c)));
		printf(",\"cr\":"); jstr(clang_getTypeSpelling(clang_getCanonicalType(clang_getCursorResultType(c))));
		printf(",\"a\":"); dump_annots(c);
		printf(",\"p\":[");
		clang_visitChildren(c, params, &p);
		printf("]}\n");
		(void) ft;
	} else if (k == CXCursor_StructDecl && clang_isCursorDefinition(c)) {
		struct pc p = { 0 };
		printf("{\"k\":\"s\",\"n\":"); jstr(clang_getCursorSpelling(c));
		printf(",\"size\":%lld,\"f\":[", clang_Type_getSizeOf(clang_getCursorType(c)));
		clang_visitChildren(c, fields, &p);
		printf("]}\n");
	} else if (k == CXCursor_EnumDecl) {
		clang_visitChildren(c, enums, NULL);
	} else if (k == CXCursor_TypedefDecl) {
		printf("{\"k\":\"t\",\"n\":"); jstr(clang_getCursorSpelling(c));
		printf(",\"t\":"); jstr(clang_getTypeSpelling(clang_getCanonicalType(clang_getTypedefDeclUnderlyingType(c))));
		printf("}\n");
	}
	return CXChildVisit_Continue;
}

int main(int argc, char **argv)
{
	CXIndex idx = clang_createIndex(0, 0);
	CXTranslationUnit tu;
	enum CXErrorCode e;
	e = clang_parseTranslationUnit2(idx, argv[1], (const char **) argv + 2, argc - 2,
		NULL, 0, CXTranslationUnit_SkipFunctionBodies, &tu);
	if (e != CXError_Success)
		return 2;
	clang_visitChildren(clang_getTranslationUnitCursor(tu), top, NULL);
	return 0;
}
