"""C20: compilation witnesses for the public headers, and resolution of everything they declare against the library's IR.
C01: operands evaluated in an unspecified order."""
import json, os, re, subprocess, tempfile, glob, shutil
CS = [('c', 'gnu11'), ('c', 'c99')]
CXXS = [('c++', 'gnu++14'), ('c++', 'c++17'), ('c++', 'c++20')]

def _syntax(lang, std, text, repo, d, extra=()):
    f = tempfile.mktemp(suffix='.c' if lang == 'c' else '.cpp', dir=d); open(f, 'w').write(text)
    r = subprocess.run(['clang' if lang == 'c' else 'clang++', '-x', lang, '-std=' + std, '-fsyntax-only', '-w', '-I' + repo + '/include', *extra, f], capture_output=True, text=True)
    return '' if r.returncode == 0 else next((l for l in r.stderr.splitlines() if 'error' in l), r.stderr[:300] or 'fails')

def _walk(n, out, cls=None):
    k = n.get('kind')
    if k in ('FunctionDecl', 'CXXMethodDecl', 'CXXConstructorDecl', 'CXXDestructorDecl', 'CXXConversionDecl'):
        if not n.get('isImplicit'): out.append(n)
        return
    if k in ('FunctionTemplateDecl', 'ClassTemplateDecl', 'ClassTemplateSpecializationDecl'): return
    if k == 'VarDecl': out.append(n); return
    for c in n.get('inner', ()): _walk(c, out, cls)

def _decls(lang, std, header, repo, d):
    f = tempfile.mktemp(suffix='.c' if lang == 'c' else '.cpp', dir=d); open(f, 'w').write(f'#include "{header}"\n')
    out = []
    for flt in (('pgfe',) if lang == 'c' else ('libpgfe', 'pgfe_')):
        r = subprocess.run(['clang' if lang == 'c' else 'clang++', '-x', lang, '-std=' + std, '-fsyntax-only', '-w', '-I' + repo + '/include', '-Xclang', '-ast-dump=json', '-Xclang', '-ast-dump-filter=' + flt, f], capture_output=True, text=True)
        dec = json.JSONDecoder(); s = r.stdout; i = 0
        while True:
            i = s.find('{', i)
            if i < 0: break
            x, i = dec.raw_decode(s, i); _walk(x, out)
    return out

def headers(repo, cov, notes, libbc=None):
    inc = repo + '/include/'; hs = sorted(os.path.relpath(h, inc) for h in glob.glob(inc + '**/*', recursive=True) if h.endswith(('.h', '.hpp')))
    d = tempfile.mkdtemp(prefix='hdr-', dir=os.path.dirname(libbc)); viol = []; n = 0
    from concurrent.futures import ThreadPoolExecutor
    ex = ThreadPoolExecutor(8); todo = []
    def want(kind, what, lang, std, text, where, extra=()): todo.append((kind, what, lang, std, text, where, extra))
    ch, xh = [h for h in hs if h.endswith('.h')], [h for h in hs if h.endswith('.hpp')]
    for h in hs:
        for lang, std in ((CS + CXXS[:1]) if h.endswith('.h') else CXXS):
            want('header not self-contained', f'<{h}> does not compile on its own and twice as {std}', lang, std, f'#include "{h}"\n#include "{h}"\nint main(void) {{ return 0; }}\n', 'include/' + h)
    for order, name in ((ch, 'in order'), (ch[::-1], 'in reverse order')):
        for lang, std in CS + CXXS: want('headers do not combine', f'all C headers {name} do not compile as {std}', lang, std, ''.join(f'#include "{h}"\n' for h in order), 'include/')
    for order, name in ((ch + xh, 'in order'), ((ch + xh)[::-1], 'in reverse order'), (xh + ch, 'C++ headers first')):
        for lang, std in CXXS: want('headers do not combine', f'all headers {name} do not compile as {std}', lang, std, ''.join(f'#include "{h}"\n' for h in order), 'include/')
    # every definition of the library agrees with the public declarations: the source compiles after all of them
    for f in sorted(glob.glob(repo + '/src/**/*', recursive=True)):
        if f.endswith('.c'): want('definition differs from its declaration', f'{os.path.relpath(f, repo)} conflicts with the public headers', 'c', 'gnu11', ''.join(f'#include "{h}"\n' for h in ch) + f'#include "{f}"\n', os.path.relpath(f, repo), ['-I' + repo + '/src'])
    # two translation units that include everything can be linked into one program: no header defines an ordinary object
    for (kind, what, lang, std, text, where, extra), err in zip(todo, ex.map(lambda t: _syntax(t[2], t[3], t[4], repo, d, t[6]), todo)):
        n += 1
        if err: viol.append({'kind': kind, 'job': 'rule headers', 'what': f'{what}: {err}', 'where': where, 'trace': ''})
    defined = set(); weak = set(); strong_hdr = []
    r = subprocess.run(['llvm-nm-18', '--defined-only', libbc], capture_output=True, text=True)
    for l in r.stdout.splitlines():
        p = l.split()
        if len(p) >= 2 and p[-2].upper() in 'TWVDBRC' and p[-2] not in 'tdbr': defined.add(p[-1])
        elif len(p) >= 2 and p[-2] in 'wWvV': defined.add(p[-1])
    seen = {}; ndecl = 0; inlined = 0
    dl = [('c', 'gnu11', h) for h in ch] + [('c++', 'gnu++14', h) for h in xh]
    for (lang, std, h), ds in zip(dl, ex.map(lambda t: _decls(t[0], t[1], t[2], repo, d), dl)):
        for x in ds:
            m = x.get('mangledName'); nm = x.get('name', '')
            if not m or m in seen: continue
            seen[m] = h
            if x.get('pure') or x.get('explicitlyDeleted') or x.get('explicitlyDefaulted'): continue
            if x['kind'] == 'VarDecl':
                if x.get('storageClass') == 'extern' and 'init' not in x:
                    ndecl += 1
                    if m not in defined: viol.append({'kind': 'declared but not defined', 'job': 'rule headers', 'what': f'object {nm} is declared in <{h}> and defined nowhere', 'where': 'include/' + h, 'trace': ''})
                continue
            body = any(c.get('kind') == 'CompoundStmt' for c in x.get('inner', ()))
            if body: inlined += 1; continue
            if not (nm.startswith('pgfe') or m.startswith('_ZN') or 'libpgfe' in m): continue
            ndecl += 1
            alts = {m, m.replace('C1E', 'C2E', 1), m.replace('D1E', 'D2E', 1)}
            if not alts & defined: viol.append({'kind': 'declared but not defined', 'job': 'rule headers', 'what': f"{x['kind'].replace('Decl', '')} {nm} {x.get('type', {}).get('qualType', '')} is declared in <{h}> and defined nowhere in the library", 'where': 'include/' + h, 'trace': m})
    # a header that defines a non-inline function or object breaks every program with two users
    if ch: 
        text = ''.join(f'#include "{h}"\n' for h in ch); viol += _odr(repo, d, 'c', 'gnu11', text); n += 1
    if xh: viol += _odr(repo, d, 'c++', 'gnu++14', ''.join(f'#include "{h}"\n' for h in ch + xh)); n += 1
    ex.shutdown()
    cov['header rule'] = {'headers': len(hs), 'compilation witnesses': n, 'declarations resolved': ndecl, 'declarations with a body in the header': inlined, 'symbols defined by the library': len(defined), 'header list': hs}
    shutil.rmtree(d, ignore_errors=True)
    if len(hs) < 5 or ndecl < 50 or len(defined) < 50:
        from run import Broken
        raise Broken(f'only {len(hs)} headers, {ndecl} declarations, {len(defined)} symbols found')
    return viol

def _odr(repo, d, lang, std, text):
    f = tempfile.mktemp(suffix='.c' if lang == 'c' else '.cpp', dir=d); open(f, 'w').write(text); o = f + '.bc'
    r = subprocess.run(['clang' if lang == 'c' else 'clang++', '-std=' + std, '-O0', '-emit-llvm', '-c', '-w', '-I' + repo + '/include', f, '-o', o], capture_output=True, text=True)
    if r.returncode: return []
    r = subprocess.run(['llvm-nm-18', '--defined-only', o], capture_output=True, text=True)
    return [{'kind': 'defined in a header', 'job': 'rule headers', 'what': f'{l.split()[-1]} is defined, not only declared, by the public headers: two users cannot be linked together', 'where': 'include/', 'trace': ''} for l in r.stdout.splitlines() if len(l.split()) >= 2 and l.split()[-2] in 'TDBRC' and ('pgfe' in l)]


# Operands whose order of evaluation the language leaves open: one modifies a local object that another one reads.
_ORDER = '''set output diag
set traversal AsIs
let vref ignoringParenImpCasts(declRefExpr(to(varDecl(hasLocalStorage(), unless(hasType(referenceType()))).bind("v"))))
let byref callExpr(forEachArgumentWithParamType(vref, qualType(lValueReferenceType(pointee(unless(isConstQualified()))))))
let byaddr callExpr(forEachArgumentWithParamType(ignoringParenImpCasts(unaryOperator(hasOperatorName("&"), hasUnaryOperand(vref))), qualType(pointerType(pointee(unless(isConstQualified()))))))
let named callExpr(callee(functionDecl(hasAnyName("::std::move", "::std::forward", "::std::addressof"))))
let eff expr(anyOf(expr(anyOf(byref, byaddr), unless(named)), binaryOperator(isAssignmentOperator(), hasLHS(vref)), unaryOperator(hasAnyOperatorName("++","--"), hasUnaryOperand(vref))))
let effs expr(anyOf(eff, hasDescendant(eff)))
let again implicitCastExpr(hasCastKind("CK_LValueToRValue"), hasSourceExpression(ignoringParens(declRefExpr(to(varDecl(equalsBoundNode("v")))))))
let reads expr(anyOf(again, hasDescendant(again)))
let here isExpansionInFileMatching("@REPO@")
match callExpr(here, hasAnyArgument(expr(effs).bind("w")), hasAnyArgument(expr(unless(equalsBoundNode("w")), reads).bind("r")))
match cxxConstructExpr(here, unless(isListInitialization()), hasAnyArgument(expr(effs).bind("w")), hasAnyArgument(expr(unless(equalsBoundNode("w")), reads).bind("r")))
let plain hasAnyOperatorName("+","-","*","/","%","&","|","^","==","!=","<",">","<=",">=")
match binaryOperator(here, plain, hasLHS(expr(effs).bind("w")), hasRHS(expr(reads).bind("r")))
match binaryOperator(here, plain, hasRHS(expr(effs).bind("w")), hasLHS(expr(reads).bind("r")))
match varDecl(here).bind("local")
'''
def order(repo, cov, notes, libbc=None):
    d = tempfile.mkdtemp(prefix='ord-', dir=os.path.dirname(libbc)); q = d + '/q'; n = [0, 0]
    text = _ORDER.replace('@REPO@', re.escape(os.path.realpath(repo)) + '/(src|include)/')
    head, tail = text.rsplit('match ', 1)
    open(q, 'w').write(head + 'set output print\nmatch ' + tail)
    fs = sorted(f for f in glob.glob(repo + '/src/**/*', recursive=True) if f.endswith(('.c', '.cpp', '.cc', '.cxx')))
    def one(f):
        flags = (['-x', 'c', '-std=gnu11', '-include', 'stdarg.h'] if f.endswith('.c') else ['-x', 'c++', '-std=gnu++14']) + ['-I' + repo + '/include', '-I' + repo + '/src']
        a = subprocess.run(['clang-query', '-f', q, f, '--', *flags, '-w'], capture_output=True, text=True)
        b = subprocess.run(['clang', *flags, '-fsyntax-only', '-w', '-Wunsequenced', '-fno-caret-diagnostics', f], capture_output=True, text=True)
        return f, a, b
    from concurrent.futures import ThreadPoolExecutor
    viol = []; seen = set(); files = 0; decls = 0
    with ThreadPoolExecutor(8) as ex:
        for f, a, b in ex.map(one, fs):
            if a.returncode or 'error:' in a.stderr or 'error:' in a.stdout:
                from run import Broken
                raise Broken(f'order of evaluation: clang-query on {f}: ' + (a.stderr + a.stdout)[-400:])
            files += 1; decls += len(re.findall(r'Binding for "local"', a.stdout))
            for m in re.finditer(r'([^\s:]+):(\d+):(\d+): note: "root" binds here\n([^\n]*)', a.stdout):
                where = f'{os.path.relpath(m.group(1), repo)}:{m.group(2)}'
                if where in seen: continue
                seen.add(where); viol.append({'kind': 'unspecified order', 'job': 'rule order', 'what': 'one operand changes a variable that another operand of the same call or operator reads, in an order the language leaves open: ' + m.group(4).split('|')[-1].strip(), 'where': where, 'trace': ''})
            for m in re.finditer(r'([^\s:]+):(\d+):(\d+): warning: ([^\n]*)\[-Wunsequenced\]', b.stderr):
                where = f'{os.path.relpath(m.group(1), repo)}:{m.group(2)}'
                if where in seen: continue
                seen.add(where); viol.append({'kind': 'unspecified order', 'job': 'rule order', 'what': m.group(4).strip(), 'where': where, 'trace': ''})
    shutil.rmtree(d, ignore_errors=True)
    cov['order rule'] = {'files': files, 'variables in scope of the queries': decls, 'calls and operators reported': len(viol)}
    if files < 10 or decls < 50:
        from run import Broken
        raise Broken(f'order of evaluation: only {files} files and {decls} variables seen')
    return viol
