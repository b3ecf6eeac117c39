/* Propose behaviour-preserving edits of one C file (used to check that the
 * checks stay quiet on them).  One line per edit:
 * kind \t function \t funcoff \t start \t end \t replacement \t helper
 * (with newlines and tabs escaped)
 */
#include <clang-c/Index.h>
#include <stdio.h>
#include <string.h>
#include <stdlib.h>

static char *src; static long len;
static CXTranslationUnit tu; static CXFile file;
static const char *fn; static long fnoff; static int cnt;

static int range(CXCursor c, long *a, long *b)
{
	CXSourceRange r = clang_getCursorExtent(c);
	CXFile f; unsigned o; unsigned o2, line;
	CXSourceLocation s = clang_getRangeStart(r), e = clang_getRangeEnd(r);
	clang_getExpansionLocation(s, &f, NULL, NULL, &o);
	if (!f || !clang_File_isEqual(f, file)) return 0;
	clang_getSpellingLocation(s, &f, NULL, NULL, &o2);
	if (o != o2) return 0;
	*a = o;
	clang_getExpansionLocation(e, &f, NULL, NULL, &o);
	if (!f || !clang_File_isEqual(f, file)) return 0;
	clang_getSpellingLocation(e, &f, NULL, NULL, &o2);
	if (o != o2) return 0;
	*b = o;
	return *a < *b;
}
static void put(const char *s, long n)
{
	for (long i = 0; i < n; ++i)
		if (s[i] == '\n') fputs("\\n", stdout);
		else if (s[i] == '\t') fputs("\\t", stdout);
		else if (s[i] == '\\') fputs("\\\\", stdout);
		else putchar(s[i]);
}
static char *sub(long a, long b) { char *p = malloc(b - a + 1); memcpy(p, src + a, b - a); p[b - a] = 0; return p; }
static void emit(const char *kind, long a, long b, const char *rep, const char *helper)
{
	printf("%s\t%s\t%ld\t%ld\t%ld\t", kind, fn, fnoff, a, b);
	put(rep, strlen(rep)); putchar('\t'); put(helper, strlen(helper)); putchar('\n');
}

struct kids { CXCursor k[4096]; int n; };
static enum CXChildVisitResult collect(CXCursor c, CXCursor p, CXClientData d)
{ struct kids *k = d; if (k->n < 4096) k->k[k->n++] = c; return CXChildVisit_Continue; }
static struct kids *kidsof(CXCursor c) { struct kids *k = malloc(sizeof *k); k->n = 0; clang_visitChildren(c, collect, k); return k; }

struct vars { char *n[64]; char *t[64]; int w[64]; int c; int bad; int jump; };
static int has_array(CXType t) { enum CXTypeKind k = clang_getCanonicalType(t).kind; return k == CXType_ConstantArray || k == CXType_VariableArray || k == CXType_IncompleteArray || k == CXType_Record; }
static enum CXChildVisitResult vis(CXCursor c, CXCursor p, CXClientData d)
{
	struct vars *v = d;
	enum CXCursorKind k = clang_getCursorKind(c);
	if (k == CXCursor_UnaryOperator) {
		struct kids *ks = kidsof(c);
		long a, b;
		if (range(c, &a, &b)) {
			if (src[a] == '&' && ks->n && clang_getCursorKind(ks->k[0]) == CXCursor_DeclRefExpr) v->bad = 1;
			if ((src[a] == '+' && src[a+1] == '+') || (src[a] == '-' && src[a+1] == '-') || src[b-1] == '+' || src[b-1] == '-') {
				if (ks->n && clang_getCursorKind(ks->k[0]) == CXCursor_DeclRefExpr) v->bad = 2;
			}
		} else v->bad = 1;
		free(ks);
	}
	if (k == CXCursor_CompoundAssignOperator) v->bad = 2;
	if (k == CXCursor_BinaryOperator) {
		struct kids *ks = kidsof(c);
		long a, b, a2, b2;
		if (ks->n == 2 && clang_getCursorKind(ks->k[0]) == CXCursor_DeclRefExpr && range(ks->k[0], &a, &b)) {
			while (src[b] == ' ') ++b;
			if (src[b] == '=' && src[b+1] != '=') v->bad = 2;
		}
		free(ks);
	}
	if (k == CXCursor_GotoStmt || k == CXCursor_ReturnStmt || k == CXCursor_BreakStmt || k == CXCursor_ContinueStmt || k == CXCursor_LabelStmt) v->jump = 1;
	if (k == CXCursor_DeclStmt) v->bad = 1;
	if (k == CXCursor_DeclRefExpr) {
		CXCursor r = clang_getCursorReferenced(c);
		enum CXCursorKind rk = clang_getCursorKind(r);
		if (rk == CXCursor_VarDecl || rk == CXCursor_ParmDecl) {
			enum CXCursorKind pk = clang_getCursorKind(clang_getCursorSemanticParent(r));
			if (pk == CXCursor_FunctionDecl) {
				const char *n = clang_getCString(clang_getCursorSpelling(r));
				CXType ty = clang_getCursorType(r);
				int i;
				if (rk == CXCursor_VarDecl && has_array(ty)) v->bad = 1;
				if (clang_getCanonicalType(ty).kind == CXType_Pointer && clang_getPointeeType(clang_getCanonicalType(ty)).kind == CXType_FunctionProto) v->bad = 1;
				for (i = 0; i < v->c; ++i) if (!strcmp(v->n[i], n)) break;
				if (i == v->c) {
					if (v->c >= 10) v->bad = 1;
					else { v->n[i] = strdup(n); v->t[i] = strdup(clang_getCString(clang_getTypeSpelling(ty))); if (strchr(v->t[i], '(')) v->bad = 1; v->c++; }
				}
			}
		}
	}
	return CXChildVisit_Recurse;
}
static void scan(CXCursor c, struct vars *v) { memset(v, 0, sizeof *v); vis(c, c, v); clang_visitChildren(c, vis, v); }

static void args(struct vars *v, char *decl, char *call)
{
	decl[0] = call[0] = 0;
	for (int i = 0; i < v->c; ++i) {
		size_t l = strlen(v->t[i]);
		char b[512];
		snprintf(b, sizeof b, "%s%s%s%s", i ? ", " : "", v->t[i], l && v->t[i][l-1] == '*' ? "" : " ", v->n[i]);
		strcat(decl, b);
		strcat(call, i ? ", " : ""); strcat(call, v->n[i]);
	}
	if (!v->c) strcpy(decl, "void");
}

static void stmt(CXCursor c);
static int iscall(CXCursor c)
{
	enum CXCursorKind k = clang_getCursorKind(c);
	if (k == CXCursor_UnexposedExpr || k == CXCursor_ParenExpr) { struct kids *ks = kidsof(c); int r = ks->n == 1 && iscall(ks->k[0]); free(ks); return r; }
	return k == CXCursor_CallExpr;
}
static enum CXChildVisitResult walk(CXCursor c, CXCursor p, CXClientData d) { stmt(c); return CXChildVisit_Recurse; }

static void seq(CXCursor comp)
{
	/* swap adjacent assignments of calls over disjoint variables; block extraction */
	struct kids *ks = kidsof(comp);
	for (int i = 0; i + 1 < ks->n; ++i) {
		long a, b, a2, b2; struct vars v, w; int dis = 1;
		struct kids *x = kidsof(ks->k[i]), *y = kidsof(ks->k[i+1]);
		if (clang_getCursorKind(ks->k[i]) == CXCursor_BinaryOperator && clang_getCursorKind(ks->k[i+1]) == CXCursor_BinaryOperator &&
		    x->n == 2 && y->n == 2 && clang_getCursorKind(x->k[0]) == CXCursor_DeclRefExpr && clang_getCursorKind(y->k[0]) == CXCursor_DeclRefExpr &&
		    iscall(x->k[1]) && iscall(y->k[1]) && range(ks->k[i], &a, &b) && range(ks->k[i+1], &a2, &b2)) {
			scan(ks->k[i], &v); scan(ks->k[i+1], &w);
			for (int p = 0; p < v.c; ++p) for (int q = 0; q < w.c; ++q) if (!strcmp(v.n[p], w.n[q])) dis = 0;
			if (dis && v.bad != 1 && w.bad != 1) {
				char *s1 = sub(a, b), *s2 = sub(b, a2), *s3 = sub(a2, b2), *r = malloc(b2 - a + 10);
				sprintf(r, "%s%s%s", s3, s2, s1);
				emit("swap", a, b2, r, "");
			}
		}
		free(x); free(y);
	}
	free(ks);
}

static int is_assign_call(CXCursor c, char *name, char *type)
{
	int r = 0;
	if (clang_getCursorKind(c) != CXCursor_BinaryOperator) return 0;
	struct kids *x = kidsof(c);
	long a, b;
	if (x->n == 2 && clang_getCursorKind(x->k[0]) == CXCursor_DeclRefExpr && iscall(x->k[1]) && range(x->k[0], &a, &b)) {
		while (src[b] == ' ') ++b;
		if (src[b] == '=' && src[b+1] != '=') {
			r = 1;
			strcpy(name, clang_getCString(clang_getCursorSpelling(x->k[0])));
			strcpy(type, clang_getCString(clang_getTypeSpelling(clang_getCursorType(x->k[0]))));
		}
	}
	free(x);
	return r;
}

static void chain(CXCursor comp)
{
	struct kids *ks = kidsof(comp);
	static char decl[8192], call[4096], buf[65536], h[65536];
	for (int i = 0; i + 1 < ks->n; ++i) {
		char n1[256], t1[256], n2[256], t2[256];
		long a, b, a2, b2; int j = i, ok = 1;
		struct vars v; memset(&v, 0, sizeof v);
		if (!is_assign_call(ks->k[i], n1, t1)) continue;
		while (j + 1 < ks->n && is_assign_call(ks->k[j+1], n2, t2) && !strcmp(n1, n2)) ++j;
		if (j == i) continue;
		for (int q = i; q <= j; ++q) {
			struct kids *x = kidsof(ks->k[q]);
			clang_visitChildren(x->k[1], vis, &v); vis(x->k[1], x->k[1], &v); free(x);
		}
		if (v.bad || v.jump || strchr(t1, '(') || !range(ks->k[i], &a, &b) || !range(ks->k[j], &a2, &b2)) continue;
		int has = 0; for (int q = 0; q < v.c; ++q) has |= !strcmp(v.n[q], n1);
		args(&v, decl, call);
		char *s = sub(a, b2);
		snprintf(h, sizeof h, "static %s rfh_%d_%s(%s)\n{\n%s%s%s%s\t%s;\n\treturn %s;\n}\n\n", t1, cnt, fn, decl, has ? "" : "\t", has ? "" : t1, has ? "" : " ", has ? "" : n1, s, n1);
		if (!has) { char *p = strstr(h, s); (void) p;
			snprintf(h, sizeof h, "static %s rfh_%d_%s(%s)\n{\n\t%s %s;\n\t%s;\n\treturn %s;\n}\n\n", t1, cnt, fn, decl, t1, n1, s, n1); }
		snprintf(buf, sizeof buf, "%s = rfh_%d_%s(%s)", n1, cnt, fn, call);
		cnt++;
		emit("chain", a, b2, buf, h);
		i = j;
	}
	free(ks);
}

struct gt { CXCursor g[256]; int n; int labels; CXCursor lab[16]; };
static enum CXChildVisitResult gotos(CXCursor c, CXCursor p, CXClientData d)
{
	struct gt *g = d;
	if (clang_getCursorKind(c) == CXCursor_GotoStmt && g->n < 256) g->g[g->n++] = c;
	if (clang_getCursorKind(c) == CXCursor_LabelStmt && g->labels < 16) g->lab[g->labels++] = c;
	return CXChildVisit_Recurse;
}

static void whole(CXCursor body, const char *rtype)
{
	struct kids *ks = kidsof(body);
	struct gt g; memset(&g, 0, sizeof g);
	static char decl[8192], call[4096], buf[65536], h[65536];
	long a, b, ea, eb;
	clang_visitChildren(body, gotos, &g);
	if (!range(body, &ea, &eb)) return;
	if (g.labels == 1 && range(g.lab[0], &a, &b)) {
		long q = a; while (src[q] != ':') ++q; ++q;
		char *rest = sub(q, eb - 1);
		if (strlen(rest) < 200 && strstr(rest, "return") && !strchr(rest, '#')) {
			for (int i = 0; i < g.n; ++i) {
				long ga, gb;
				if (!range(g.g[i], &ga, &gb) || ga > a) continue;
				snprintf(buf, sizeof buf, "{ %s }", rest);
				emit("unlabel", ga, src[gb] == ';' ? gb + 1 : gb, buf, "");
			}
		}
	}
	/* tail */
	for (int k = 1; k + 1 < ks->n; ++k) {
		struct vars v; memset(&v, 0, sizeof v);
		long la, lb; int bad = 0;
		if (clang_getCursorKind(ks->k[k]) == CXCursor_DeclStmt || clang_getCursorKind(ks->k[k]) == CXCursor_LabelStmt) continue;
		if (clang_getCursorKind(ks->k[k-1]) == CXCursor_DeclStmt) continue;
		if (!range(ks->k[k], &a, &b)) continue;
		for (int i = 0; i < g.n; ++i) { long ga, gb; if (!range(g.g[i], &ga, &gb) || ga < a) bad = 1; }
		for (int i = 0; i < g.labels; ++i) { if (!range(g.lab[i], &la, &lb) || la < a) bad = 1; }
		if (bad) continue;
		for (int q = k; q < ks->n; ++q) { vis(ks->k[q], ks->k[q], &v); clang_visitChildren(ks->k[q], vis, &v); }
		if (v.bad == 1 || v.c > 9 || !v.c) continue;
		char *s = sub(a, eb - 1);
		args(&v, decl, call);
		int isv = !strcmp(rtype, "void");
		snprintf(h, sizeof h, "static %s rft_%d_%s(%s)\n{\n\t%s}\n\n", rtype, cnt, fn, decl, s);
		snprintf(buf, sizeof buf, "%srft_%d_%s(%s);\n", isv ? "" : "return ", cnt, fn, call);
		cnt++;
		emit("tail", a, eb - 1, buf, h);
	}
	free(ks);
}

static void stmt(CXCursor c)
{
	enum CXCursorKind k = clang_getCursorKind(c);
	long a, b; struct vars v; static char decl[8192], call[4096], buf[65536], h[65536];
	if (k == CXCursor_CompoundStmt) { seq(c); chain(c); }
	if (k == CXCursor_BinaryOperator) {
		struct kids *ks = kidsof(c);
		if (ks->n == 2 && clang_getCursorKind(ks->k[0]) == CXCursor_DeclRefExpr && iscall(ks->k[1]) && range(ks->k[1], &a, &b)) {
			long a0, b0; range(c, &a0, &b0);
			scan(ks->k[1], &v);
			long q = a0; while (q > 0 && (src[q-1] == ' ' || src[q-1] == '\t')) --q;
			if (!v.bad && !v.jump && src[b] == ';') {
				const char *t = clang_getCString(clang_getTypeSpelling(clang_getCursorType(ks->k[0])));
				char *s = sub(a, b);
				if (!strchr(t, '(')) {
					args(&v, decl, call);
					snprintf(h, sizeof h, "static %s rfx_%d_%s(%s)\n{\n\treturn %s;\n}\n\n", t, cnt, fn, decl, s);
					snprintf(buf, sizeof buf, "rfx_%d_%s(%s)", cnt, fn, call);
					cnt++;
					emit("extract", a, b, buf, h);
				}
			}
		}
		free(ks);
	}
	if (k == CXCursor_ReturnStmt) {
		struct kids *ks = kidsof(c);
		if (ks->n == 1 && iscall(ks->k[0]) && range(ks->k[0], &a, &b)) {
			scan(ks->k[0], &v);
			if (!v.bad && src[b] == ';') {
				const char *t = clang_getCString(clang_getTypeSpelling(clang_getCursorType(ks->k[0])));
				char *s = sub(a, b);
				if (!strchr(t, '(')) {
					args(&v, decl, call);
					snprintf(h, sizeof h, "static %s rfr_%d_%s(%s)\n{\n\t%s res;\n\n\tres = %s;\n\treturn res;\n}\n\n", t, cnt, fn, decl, t, s);
					snprintf(buf, sizeof buf, "rfr_%d_%s(%s)", cnt, fn, call);
					cnt++;
					emit("extractret", a, b, buf, h);
				}
			}
		}
		free(ks);
	}
	if (k == CXCursor_IfStmt && range(c, &a, &b)) {
		struct kids *ks = kidsof(c);
		long ca, cb, ta, tb, ea, eb;
		if (range(ks->k[0], &ca, &cb) && range(ks->k[1], &ta, &tb)) {
			char *cs = sub(ca, cb);
			scan(ks->k[0], &v);
			if (!v.bad && v.c) {
				char *s = cs;
				args(&v, decl, call);
				snprintf(h, sizeof h, "static int rfc_%d_%s(%s)\n{\n\treturn (%s) != 0;\n}\n\n", cnt, fn, decl, s);
				snprintf(buf, sizeof buf, "rfc_%d_%s(%s)", cnt, fn, call);
				cnt++;
				if (strlen(s) > 8) emit("cond", ca, cb, buf, h);
			}
			/* body extraction: a compound without jumps or assignments to locals */
			scan(ks->k[1], &v);
			if (!v.bad && !v.jump && v.c && clang_getCursorKind(ks->k[1]) == CXCursor_CompoundStmt) {
				char *s = sub(ta, tb);
				args(&v, decl, call);
				snprintf(h, sizeof h, "static void rfb_%d_%s(%s)\n%s\n\n", cnt, fn, decl, s);
				snprintf(buf, sizeof buf, "rfb_%d_%s(%s);", cnt, fn, call);
				cnt++;
				emit("body", ta, tb, buf, h);
			}
			if (ks->n == 3 && range(ks->k[2], &ea, &eb) && clang_getCursorKind(ks->k[2]) != CXCursor_IfStmt) {
				char *ts = sub(ta, tb), *es = sub(ea, eb);
				snprintf(buf, sizeof buf, "if (!(%s)) { %s%s } else { %s%s }", cs, es, src[eb] == ';' ? ";" : "", ts, src[tb] == ';' ? ";" : "");
				emit("invert", a, src[eb] == ';' ? eb + 1 : eb, buf, "");
			}
			if (ks->n == 2 && clang_getCursorKind(ks->k[0]) == CXCursor_BinaryOperator) {
				struct kids *o = kidsof(ks->k[0]); long la, lb, ra, rb;
				if (o->n == 2 && range(o->k[0], &la, &lb) && range(o->k[1], &ra, &rb)) {
					char *ls = sub(la, lb), *rs = sub(ra, rb), *ts = sub(ta, tb), *op = sub(lb, ra);
					if (strstr(op, "||") && (strstr(ts, "goto") || strstr(ts, "return")) ) {
						snprintf(buf, sizeof buf, "if (%s)\n%s;\nif (%s)\n%s", ls, ts, rs, ts);
						emit("splitor", a, tb, buf, "");
					} else if (strstr(op, "&&")) {
						snprintf(buf, sizeof buf, "if (%s) {\nif (%s)\n%s%s }", ls, rs, ts, src[tb] == ';' ? ";" : "");
						emit("splitand", a, src[tb] == ';' ? tb + 1 : tb, buf, "");
					}
				}
				free(o);
			}
		}
		free(ks);
	}
	if (k == CXCursor_ForStmt && range(c, &a, &b)) {
		struct kids *ks = kidsof(c);
		long ia, ib, ca, cb, na, nb, ba, bb;
		if (ks->n == 4 && range(ks->k[0], &ia, &ib) && range(ks->k[1], &ca, &cb) && range(ks->k[2], &na, &nb) && range(ks->k[3], &ba, &bb)) {
			scan(ks->k[3], &v);
			char *bs = sub(ba, bb), *is = sub(ia, ib), *cs = sub(ca, cb), *ns = sub(na, nb);
			if (!strstr(bs, "continue")) {
				long e = src[bb] == ';' ? bb + 1 : bb;
				snprintf(buf, sizeof buf, "{ %s;\nwhile (%s) {\n%s%s\n%s;\n} }", is, cs, bs, src[bb] == ';' ? ";" : "", ns);
				emit("while", a, e, buf, "");
				}
			if (!v.bad && !v.jump && v.c) {
				char *s = bs; int comp = clang_getCursorKind(ks->k[3]) == CXCursor_CompoundStmt;
				args(&v, decl, call);
				snprintf(h, sizeof h, "static void rfl_%d_%s(%s)\n{\n%s%s\n}\n\n", cnt, fn, decl, s, comp ? "" : ";");
				snprintf(buf, sizeof buf, "rfl_%d_%s(%s)%s", cnt, fn, call, comp ? ";" : "");
				cnt++;
				emit("loopbody", ba, bb, buf, h);
			}
		}
		free(ks);
	}
	if (k == CXCursor_CallExpr && range(c, &a, &b)) {
		/* first argument that is a call is computed earlier: only if the call is itself a statement */
	}
}

static enum CXChildVisitResult top(CXCursor c, CXCursor p, CXClientData d)
{
	long a, b;
	if (clang_getCursorKind(c) == CXCursor_FunctionDecl && clang_isCursorDefinition(c) && range(c, &a, &b)) {
		CXFile f; unsigned o;
		clang_getExpansionLocation(clang_getRangeStart(clang_getCursorExtent(c)), &f, NULL, NULL, &o);
		if (!clang_File_isEqual(f, file)) return CXChildVisit_Continue;
		fn = strdup(clang_getCString(clang_getCursorSpelling(c)));
		/* start of the line, before a comment or attributes on earlier lines */
		while (a > 0 && src[a-1] != '\n') --a;
		while (a > 1) {	/* go up over non-empty, non-brace lines */
			long q = a - 1; while (q > 0 && src[q-1] != '\n') --q;
			if (q == a - 1 || src[q] == '}' || src[q] == '#' || (a - q >= 2 && src[a-2] == ';')) break;
			a = q;
		}
		/* inside an open comment with empty lines? move to its start */
		fnoff = a;
		clang_visitChildren(c, walk, NULL);
		{ struct kids *ks = kidsof(c); if (ks->n && clang_getCursorKind(ks->k[ks->n-1]) == CXCursor_CompoundStmt)
			whole(ks->k[ks->n-1], strdup(clang_getCString(clang_getTypeSpelling(clang_getCursorResultType(c))))); free(ks); }
	}
	return CXChildVisit_Continue;
}

int main(int argc, char **argv)
{
	CXIndex ix = clang_createIndex(0, 0);
	const char *target = getenv("REFAC_TARGET") ? getenv("REFAC_TARGET") : argv[1];
	FILE *f = fopen(target, "rb");
	fseek(f, 0, SEEK_END); len = ftell(f); rewind(f); src = malloc(len + 1); fread(src, 1, len, f); src[len] = 0; fclose(f);
	tu = clang_parseTranslationUnit(ix, argv[1], (const char **) argv + 2, argc - 2, NULL, 0, 0);
	if (!tu) return 1;
	file = clang_getFile(tu, target);
	if (!file) return 0;
	clang_visitChildren(clang_getTranslationUnitCursor(tu), top, NULL);
	return 0;
}
