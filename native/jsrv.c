/* Driver of the bounded stand-ins: runs the real functions of /repo on frames read from stdin.
   frame:  "<mode> <cores> <len query> <len doc>\n" query doc        answer: "OK <n>\n" then n times "<len>\n<bytes>\n", or "DIE <signal>\n"
   s serialRun   p parallelRun   o parallelRunOpt with constraints learned on the same document   w parallelRunOpt learned on another document
   t tokens      i partitionInputStream   f partitionFile   l loadBoundedInputStream until the end   a automaton on edge paths
   c constraint table learned on the document, rows   k constraint table operations   m query-stacks script   M combine script
   u tuple list of executeAutomaton   r syntax-stack combine   x query automaton table for the keys in doc   R rows of a compressed table
   Groups of modes are left out with -DNO_<GROUP> when the sources no longer offer their interface. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include "dfa_builder.h"
#include "path_processor.h"
static char path[4096], path2[4096];
static char** out; static int* outl; static int nout;
static void addn(const char* s, int l) {
    if (nout % 1024 == 0) { out = realloc(out, (nout + 1024) * sizeof(char*)); outl = realloc(outl, (nout + 1024) * sizeof(int)); }
    out[nout] = malloc(l + 1); memcpy(out[nout], s, l); outl[nout++] = l;
}
static void add(const char* s) { addn(s, strlen(s)); }
static void outputs(Output* o) { if (!o) { add("<no output>"); return; } int n = getOutputSize(o); for (int i = 0; i < n; i++) add(getOutputElement(o, i)); }
#ifndef NO_CXX
void crow(const char*, void (*)(const char*));
#endif
#ifndef NO_LEX
static void tokens(char* d)
{
    Lexer lx; initLexer(&lx, d); char b[8192];
    for (int i = 0; i < 100000; i++) {
        Token t = nextToken(&lx);
        snprintf(b, sizeof b, "%d %d %s", t.token_type, (int)(lx.next_start - lx.begin_stream), t.token_type == KY || t.token_type == PRI ? t.content : "");
        add(b);
        if (t.token_type == END) break;
    }
    destroyLexer(&lx);
}
#endif
#ifndef NO_STACKS
static QueryStacks Q, Q2;
static QueryStacksElement script(QueryStacks* qs, JSONQueryDFA* qa, char* d, TupleList* tl)
{
    QueryStacksElement e = {0, -1}; char* sv;
    for (char* l = strtok_r(d, "\n", &sv); l; l = strtok_r(NULL, "\n", &sv)) {
        char c = l[0]; l += l[1] ? 2 : 1;
        if (c == 'I') { int st[100], n = 0; char* s2; for (char* x = strtok_r(l, " ", &s2); x; x = strtok_r(NULL, " ", &s2)) st[n++] = atoi(x); e = initQueryStacks(qs, st, n); }
        else if (c == 'P') e = queryStacksPush(qs, e, qa, *l ? l : DFA_ARRAY);
        else if (c == 'O') e = queryStacksPop(qs);
        else if (c == 'C') { for (int i = e.start; i <= e.end; i++) qs->node[i].count++; }
        else if (c == 'S') { int v = atoi(l); for (int i = e.start; i <= e.end; i++) qs->node[i].matched_start = v++; }
        else if (c == 'T') { int k; char t[64]; sscanf(l, "%d %s", &k, t); int i = e.start + k % (e.end - e.start + 1); addTupleInfo(qs, i, qs->node[i].query_state, t, tl); }
        else if (c == 'V') { int k; sscanf(l, "%d", &k); int i = e.start + k % (e.end - e.start + 1); addVirtualTupleInfo(qs, i, qs->node[i].query_state, k, k + 5, tl); }
    }
    return e;
}
static void dump(QueryStacks* qs, QueryStacksElement e, TupleList* tl, int brief)
{
    char b[20000]; int p;
    for (int i = 0; i < qs->num_node; i++) {
        TreeNode* n = &qs->node[i];
        p = sprintf(b, "N %d %d %d", n->query_state, n->count, n->matched_start);
        if (!brief) {
            p += sprintf(b + p, " P"); for (int j = n->parent_range.start; j <= n->parent_range.end; j++) p += sprintf(b + p, " %d", qs->parent_pointers[j]);
            p += sprintf(b + p, " R"); for (int j = n->root_range.start; j <= n->root_range.end; j++) p += sprintf(b + p, " %d", qs->root_pointers[j]);
            if (n->root_range.end == -1 && tl) {
                p += sprintf(b + p, " T"); int g = 0;
                for (int t = n->first_tuple_index; t != -1 && g < 200; t = tl->element[t].next_index, g++) p += sprintf(b + p, " %s:%d:%d", tl->element[t].start_position == -1 ? tl->element[t].text : "@", tl->element[t].start_position, tl->element[t].state);
            }
        }
        add(b);
    }
    p = sprintf(b, "S"); for (int i = 0; i <= qs->top_item; i++) p += sprintf(b + p, " %d-%d", qs->item[i].start, qs->item[i].end);
    sprintf(b + p, " cur %d-%d", e.start, e.end); add(b);
}
#endif
static void child(int fd, char mode, int cores, char* q, char* d)
{
    int dn = open("/dev/null", O_WRONLY);
    dup2(dn, 1); dup2(dn, 2);
    alarm(20);
    struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
    char b[16000];
    PathProcessor* pp = strchr("spowacmMux", mode) ? createPathProcessor(q) : NULL;
    if (mode == 's') outputs(serialRun(pp, path));
    else if (mode == 'p') outputs(parallelRun(pp, path, cores));
    else if (mode == 'o') { ConstraintTable* ct = collectDataConstraints(pp, path); outputs(parallelRunOpt(pp, path, cores, ct)); }
    else if (mode == 'w') {      /* doc = training document \x1d document */
        char* x = strchr(d, 0x1d); FILE* f = fopen(path2, "wb"); fwrite(d, 1, x - d, f); fclose(f); f = fopen(path, "wb"); fputs(x + 1, f); fclose(f);
        ConstraintTable* ct = collectDataConstraints(pp, path2); outputs(parallelRunOpt(pp, path, cores, ct)); }
#ifndef NO_LEX
    else if (mode == 't') tokens(d);
#endif
#ifndef NO_PART
    else if (mode == 'i' || mode == 'f') {
        PartitionInfo pi = mode == 'i' ? partitionInputStream(d, cores) : partitionFile(path, cores);
        for (int i = 0; i < pi.num_chunk; i++) add(pi.stream[i]);
    }
    else if (mode == 'l') { int pos = 0; char* s; for (int i = 0; i < 10000 && (s = loadBoundedInputStream(path, &pos)); i++) add(s); }
#endif
#ifndef NO_DFA
    else if (mode == 'x') {
        JSONQueryDFA* qa = pp->query_automaton; int N = getDFAStatesNumber(qa); char* keys[200]; int nk = 0; char* sv;
        for (char* l = strtok_r(d, "\n", &sv); l; l = strtok_r(NULL, "\n", &sv)) keys[nk++] = l;
        for (int s = 0; s < N; s++) {
            JSONQueryIndexPair ip = getDFAArrayIndex(qa, s);
            int p = sprintf(b, "%d %d %d", getDFAAcceptType(qa, s), ip.lower, ip.upper);
            for (int k = 0; k < nk; k++) p += sprintf(b + p, " %d", dfaNextStateByStr(qa, s, strcmp(keys[k], "[]") ? keys[k] : DFA_ARRAY));
            add(b);
        }
    }
    else if (mode == 'a') {
        JSONQueryDFA* qa = pp->query_automaton; char *sv, *sv2;
        for (char* l = strtok_r(d, "\n", &sv); l; l = strtok_r(NULL, "\n", &sv)) {
            int s = 1;
            if (strcmp(l, "-")) for (char* e = strtok_r(l, "\x1f", &sv2); e; e = strtok_r(NULL, "\x1f", &sv2)) s = dfaNextStateByStr(qa, s, strcmp(e, "[]") ? e : DFA_ARRAY);
            JSONQueryIndexPair ip = getDFAArrayIndex(qa, s);
            sprintf(b, "%d %d %d %d", getDFAAcceptType(qa, s), ip.lower, ip.upper, s); add(b);
        }
    }
#endif
#ifndef NO_CONS
    else if (mode == 'c') {
        ConstraintTable* ct = collectDataConstraints(pp, path);
        for (int i = 0; i < ct->num_constraint_info; i++) {
            ConstraintInfo* c = &ct->constraint_info[i]; int p = sprintf(b, "%d %s", c->type, c->type == KY ? c->token_name : "[]");
            for (int j = 0; j < c->num_state; j++) p += sprintf(b + p, " %d", c->state_set[j]);
            add(b);
        }
    }
    else if (mode == 'k') {
        ConstraintTable* ct = createConstraintTable(); char* sv; static ConstraintInfo ci;
        for (char* l = strtok_r(d, "\n", &sv); l; l = strtok_r(NULL, "\n", &sv)) {
            char op; int st, ty; char nm[1000]; sscanf(l, "%c %d %d %s", &op, &st, &ty, nm);
            if (op == 'A') addConstraintInfo(ct, st, ty, nm);
            else { ci.type = ty; strcpy(ci.token_name, nm); updateStateInfo(ct, &ci); int p = sprintf(b, "%d", ci.num_state); for (int j = 0; j < ci.num_state; j++) p += sprintf(b + p, " %d", ci.state_set[j]); add(b); }
        }
    }
#endif
#ifndef NO_STACKS
    else if (mode == 'm') { TupleList* tl = createTupleList(); QueryStacksElement e = script(&Q, pp->query_automaton, d, tl); dump(&Q, e, tl, 0); }
    else if (mode == 'M') {
        char* x = strchr(d, 0x1d); *x = 0; TupleList* tl = createTupleList();
        QueryStacksElement e = script(&Q, pp->query_automaton, d, tl), e2 = script(&Q2, pp->query_automaton, x + 1, tl);
        combineQueryStacks(&Q, &e, &Q2, &e2); dump(&Q, e, NULL, 1);
    }
    else if (mode == 'r') {
        SyntaxStack a, c; initSyntaxStack(&a); initSyntaxStack(&c); char* x = strchr(d, '|');
        for (char* s = d; s < x; s++) syntaxStackPush(&a, *s - '0');
        for (char* s = x + 1; *s; s++) syntaxStackPush(&c, *s - '0');
        combineSyntaxStack(&a, &c); int p = 0;
        for (int i = 0; i <= a.top_item; i++) p += sprintf(b + p, "%d", a.symbol[i]);
        b[p] = 0; add(b);
    }
#endif
#ifndef NO_CXX
    else if (mode == 'R') crow(d, add);
#endif
#ifndef NO_TUPLES
    else if (mode == 'u') {
        StreamingAutomaton sa; initStreamingAutomaton(&sa, pp->query_automaton); executeAutomaton(&sa, d, CLOSE);
        for (int i = 0; i < getTupleListSize(sa.tuple_list); i++) { Tuple* t = &sa.tuple_list->element[i]; sprintf(b, "%d %s", getDFAAcceptType(pp->query_automaton, t->state), t->text); add(b); }
        sprintf(b, "end %d %d %d %d %d", sa.query_state, sa.count, sa.matched_start, sa.syntax_stack.top_item, sa.query_stack.top_item); add(b);
    }
#endif
    else add("<mode unavailable>");
    FILE* f = fdopen(fd, "w");
    fprintf(f, "OK %d\n", nout);
    for (int i = 0; i < nout; i++) { fprintf(f, "%d\n", outl[i]); fwrite(out[i], 1, outl[i], f); fputc('\n', f); }
    fflush(f);
    _exit(0);
}
int main(int argc, char** argv)
{
    snprintf(path, sizeof path, "%s/doc", argv[1]); snprintf(path2, sizeof path2, "%s/train", argv[1]);
    char mode; int cores, nq, nd;
    while (scanf(" %c %d %d %d", &mode, &cores, &nq, &nd) == 4) {
        getchar();
        char* q = malloc(nq + 1); fread(q, 1, nq, stdin); q[nq] = 0;
        char* d = malloc(nd + 1); fread(d, 1, nd, stdin); d[nd] = 0;
        FILE* f = fopen(path, "wb"); fwrite(d, 1, nd, f); fclose(f);
        int p[2]; pipe(p);
        fflush(stdout);
        pid_t pid = fork();
        if (!pid) { close(p[0]); child(p[1], mode, cores, q, d); }
        close(p[1]);
        char* buf = NULL; size_t len = 0, cap = 0; ssize_t r;
        for (;;) {
            if (len + 65536 > cap) buf = realloc(buf, cap = cap * 2 + 65536);
            r = read(p[0], buf + len, 65536);
            if (r <= 0) break;
            len += r;
        }
        close(p[0]);
        int st; waitpid(pid, &st, 0);
        if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && len) fwrite(buf, 1, len, stdout);
        else printf("DIE %d\n", WIFSIGNALED(st) ? WTERMSIG(st) : 1000 + WEXITSTATUS(st));
        fflush(stdout);
        free(buf); free(q); free(d);
    }
    return 0;
}
