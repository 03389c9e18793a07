#!/usr/bin/env python3
"""Mechanical extraction of /repo/libmpdata++ for the verification-condition generator.

The headers are copied verbatim except for ONE token substitution:
   int     -> vint   (symbolic integer)          except where C++ demands a compile-time int:
                      non-type template parameters (`int NAME` inside `template <...>`), functions declared `constexpr int` (usable as template arguments; not hint_scale), lines with
                      `enum`, `static const int`, `unsigned int`, `(int)` casts,
                      and `const int NAME = <literal>;` constants
   double  -> vreal  (in concurr/detail/sharedmem.hpp, concurr/detail/distmem.hpp and solvers/ only: the double accumulators)
   float   -> vreal  (in solvers/detail/solver_common.hpp only: the progress fraction handed to monitor(), which is dropped)
   long long int -> vint
   unsigned -> vint  (in concurr/boost_thread.hpp, cxx11_thread.hpp, openmp.hpp only: the number of threads)
   NAME{} in a member-initialiser list, TYPE<..> NAME{};  -> zero-initialisation spelt out (sym::zeros(); a default-constructed vreal counts as uninitialised)
   switch (e) -> switch (static_cast<long>(e))   [via the macro SYM_SWITCH]
Nothing else is changed, dropped or re-ordered.  Line numbers are preserved.
usage: extract.py SRC DST
"""
import re, sys, os, hashlib
TOK = re.compile(r'''(//[^\n]*)|(/\*.*?\*/)|("(?:\\.|[^"\\\n])*")|('(?:\\.|[^'\\\n])*')|([A-Za-z_]\w*)|(\s+)|(.)''', re.S)

def rewrite(text, double):
    toks = [(m.lastindex, m.group(0)) for m in TOK.finditer(text)]
    lines = text.split('\n')
    out = []; line = 0; n = len(toks); count = 0
    tmpl = 0          # angle depth inside template <...>
    pend = False
    sig = [i for i, (k, t) in enumerate(toks) if k not in (1, 2, 6)]
    nxt = {}; prv = {}
    for a, b in zip(sig, sig[1:]): nxt[a] = b; prv[b] = a
    paren = 0
    for i, (k, t) in enumerate(toks):
        L = lines[line] if line < len(lines) else ''
        o = t
        if k == 5:
            if t == 'template' and i in nxt and toks[nxt[i]][1] == '<': pend = True
            if t == 'int':
                nx = toks[nxt[i]] if i in nxt else (7, ''); pv = toks[prv[i]] if i in prv else (7, '')
                keep = False
                if tmpl == 1 and nx[0] == 5: keep = True
                if nx[1] == '(' and pv[1] not in ('const',) and 'log' in L: keep = True   # opts.hpp: int(log(x)/log(2)) of a double
                if re.search(r'constexpr\s+(const\s+)?int\b', L) and 'hint_scale' not in L: keep = True
                if re.search(r'\benum\b', L) or 'static const int' in L or re.search(r'\bconst\s+int\s+\w+\s*=\s*\d+\s*(,\s*\w+\s*=\s*\d+\s*)*;', L): keep = True
                if pv[1] in ('unsigned', 'short'): keep = True
                if pv[1] == 'long':
                    q = prv[i]
                    while toks[q][1] == 'long': out[q] = ''; q = prv[q]
                if pv[1] == '(' and nx[1] == ')' : keep = True
                if L.lstrip().startswith('#'): keep = True
                if 'mpi_initialized' in L or 'th_lvl_provided' in L: keep = True
                if not keep: o = 'vint'; count += 1
            elif t == 'switch' and i in nxt and toks[nxt[i]][1] == '(': o = 'switch SYM_SWITCH'; count += 1
            elif t == 'unsigned' and double == 'thr' and not (i in nxt and toks[nxt[i]][1] == 'int'): o = 'vint'; count += 1
            elif t == 'float' and double == 'all': o = 'vreal'; count += 1
            elif t == 'double' and double and double != 'thr' and not L.lstrip().startswith('#'): o = 'vreal'; count += 1
        elif k == 7:
            if pend and t == '<': tmpl = 1; pend = False; paren = 0
            elif tmpl:
                if t == '<': tmpl += 1
                elif t == '>': tmpl -= 1
        out.append(o); line += t.count('\n')
    return ''.join(out), count

def main(src, dst):
    h = hashlib.sha256(); tot = 0; nf = 0
    for root, _, files in os.walk(os.path.join(src, 'libmpdata++')):
        for f in sorted(files):
            if not f.endswith('.hpp'): continue
            p = os.path.join(root, f); rel = os.path.relpath(p, src)
            text = open(p, encoding='utf-8', errors='surrogateescape').read(); h.update(rel.encode()); h.update(text.encode('utf-8', 'surrogateescape'))
            dbl = rel.endswith(('sharedmem.hpp', 'distmem.hpp')) or '/solvers/' in rel
            if rel.endswith('solver_common.hpp'): dbl = 'all'
            if '/concurr/' in rel and rel.endswith(('_thread.hpp', 'openmp.hpp')): dbl = 'thr'
            if rel.endswith('cxx11_thread.hpp'):   # the barrier's contract replaces its body, which is checked on its own (harness/barrier.cpp)
                text = re.sub(r'std::(thread|mutex|condition_variable|unique_lock)\b', r'sym_thread::\1', text); text = text.replace('std::size_t', 'vint'); text = re.sub(r'\bunsigned int\b', 'sym::u32', text); text = re.sub(r'\bdetail::barrier b;', 'boost::barrier b;', text)
            if rel.endswith('openmp.hpp'):
                text = re.sub(r'#pragma omp barrier', 'omp_shim::barrier();', text)
                text = re.sub(r'#pragma omp parallel([^\n]*)\n(\s*)\{', lambda m: '\n' + m.group(2) + '{ omp_shim::in_team in_team_(%s);' % ((re.search(r'num_threads\((.*)\)', m.group(1)) or [0, 'omp_get_max_threads()'])[1]), text)
            skip = rel.endswith(('opts.hpp', 'kahan_reduction.hpp', 'git_revision.hpp', 'timer.hpp', 'monitor.hpp')) or '/output/' in rel
            new, c = (text, 0) if skip and not rel.endswith('opts.hpp') else rewrite(text, dbl)
            new, c2 = re.subn(r'(?<!struct )(?<!class )\b(\w+)\{\}(?=\s*[,{])', r'\1(sym::zeros())', new) if not skip else (new, 0)
            new, c3 = re.subn(r'(>\s+\w+)\{\};', r'\1 = sym::zeros();', new) if not skip else (new, 0); c += c2 + c3
            tot += c; nf += 1
            q = os.path.join(dst, rel); os.makedirs(os.path.dirname(q), exist_ok=True)
            old = open(q, encoding='utf-8', errors='surrogateescape').read() if os.path.exists(q) else None
            if old != new: open(q, 'w', encoding='utf-8', errors='surrogateescape').write(new)
    print(f'extracted {nf} headers, {tot} token substitutions, sha256 {h.hexdigest()[:16]}')
if __name__ == '__main__': main(*sys.argv[1:3])
