"""Source templates for the properties of the parser."""
from templates import *

TREE, REASON, PLACE, TOTAL, UNTRACK, WHERE = 1, 2, 3, 4, 5, 6
SCRIPT, STRICT, MODULE = 0, 1, 2
ID = LOW                      # one-letter names
ARITH = Alt('|| && | ^ & == != === !== < <= > >= << >> >>> + - * / % in instanceof')
LEVELS = Alt('|| && | ^ & != < >> - * % in')
ASSIGN = Alt('= += -= *= /= %= <<= >>= >>>= |= ^= &=')
PREFIX = Alt('- + ! ~ typeof void delete ++ --')
TOKENS = """a 0 's' /r/ this null true false function ( ) [ ] { } ; , . ... = += => ? : ++ -- + * / ! in instanceof new typeof void
delete var let const if else for while do break continue return with switch case default throw try catch finally debugger
yield static eval of get set await target async import export class super enum implements 'use_strict' ` \\ @ # "x""".split()

RESERVED = '''null true false break case catch class const continue debugger default delete do else export extends finally for function if import in
instanceof new return super switch this throw try typeof var void while with enum yield let static await implements interface package private protected public
async eval arguments get set of target undefined from as'''.split()

def par_cases(pid, deep):
    c = []
    labels = set()
    def add(label, t, what=TREE, modes=(SCRIPT,), entry='h_par'):
        if entry != 'h_par':
            assert label not in labels, label
            labels.add(label)
            q = Params([0] + list(modes))
            q.template(t)
            c.append((label, entry, q.done()))
            return
        for m in modes:
            l = '%s-%s' % (label, 'script strict module program-script program-strict program-module'.split()[m])
            assert l not in labels, l
            labels.add(l)
            c.append((l, 'h_par', par(what, m, t)))
    def many(label, ts, **kw):
        for i, t in enumerate(ts):
            add('%s%d' % (label, i), t, **kw)
    globals()['_' + pid](add, many, deep)
    return c

# ---------------------------------------------------------------- expressions
def _P02(add, many, deep):
    add('pair', T(ID, ARITH, ID))
    add('two', T(ID, ARITH, ID, ARITH, ID))
    add('three', T(ID, ARITH if deep else LEVELS, ID, ARITH if deep else LEVELS, ID, ARITH if deep else LEVELS, ID))
    some = Alt('|| & == < + *')
    add('four', T(ID, LEVELS if deep else some, ID, some, ID, some, ID, some, ID))
    add('six', T(ID, Alt('|| * -'), ID, Alt('&& + %'), ID, Alt('| == *'), ID, Alt('< + ||'), ID, Alt('>> in -'), ID, Alt('* ='), ID))
    add('unary', T(PREFIX, ID, ARITH, PREFIX, ID))
    for i, u in enumerate(['switch(a){case %s:}', 'switch(%s){}', 'if(%s);', 'while(%s);', 'do;while(%s)', 'with(%s);', 'throw %s;', 'for(;%s;);', 'for(;;%s);', 'for(a in %s);', 'for(a of %s);', 'a[%s];', '(%s);', 'f(%s);', 'new f(%s);', '[%s];', '({a:%s});', 'b?%s:c;', 'b?c:%s;', 'var x=%s;', '%s;', 'for(%s;;);', 'for(var x=%s;;);']):
        a, b = u.split('%s')
        add('place%d' % i, T(Alt(['', 'for(;;)', 'l:', 'for(a[', 'if(x)', 'switch(y){case 0:', 'x=function(){', 'for(x=function(){', '({get z(){']), a, 'd', Alt([',', ' in ', '=', '+', '?e:']), 'g', b, Alt(['', '}', '}})', '};;);', '];;);'])))
    add('unary2', T(PREFIX, PREFIX, ID, S('.[('), ID, S(')]+')))
    add('unary3', T(PREFIX, PREFIX, PREFIX, ID))
    add('postfix', T(PREFIX, ID, Alt('++ --'), ARITH, ID, Alt('++ -- +')))
    add('postfix-target', T(ID, Alt('.b [b] () ++ +b'), Alt('++ -- + .c'), S(';,'), ID))
    add('cond', T(ID, S('?=+,'), ID, S(':?=,'), ID, S(':?=;'), ID, S(':;+'), ID))
    add('cond2', T(ID, '?', ID, S('?=,'), ID, ':', ID, S(':?,'), ID, S(':;='), ID, Alt(': ; in'), ID))
    add('assign', T(ID, ASSIGN, ID, ASSIGN, ID, S(';?+,')))
    add('assign-mix', T(ID, Alt('= += + ? ,'), ID, Alt('= += + : ,'), ID, Alt('= -= * ,'), ID))
    add('seq', T(ID, S(',=+'), ID, S(',=+'), ID, S(',=+'), ID))
    add('paren', T('(', ID, ARITH, ID, ')', ARITH, ID))
    add('paren2', T(ID, ARITH, '(', ID, Alt('+ , = ? in'), ID, Alt(') :c) ,d)'), Alt('* ; = ++')))
    add('in', T(ID, Alt('in instanceof , ='), ID, Alt('in instanceof < ? , ='), ID, Alt('in ; :c :d')))
    add('for-in-flag', T('for(', ID, Alt('= ? + ; ( [ ,'), ID, Alt('in : ; ) ]'), ID, Alt('in ; : )'), ID, Alt('; ) :'), ID, S(';)'), ID, S(')+;'), ';'))
    add('no-in', T('for(', Alt(['a?', 'a?b:', 'var a=', 'let a=', 'a=', '(', '[', 'f(', 'a=[', 'a,', '!', 'var a=b?', 'a=b?c:', 'x=function(){', 'var a=[', 'x={y:', 'a[']), 'b', Alt([' in', '+', ',']), ' c', Alt(['', ':d', ')', ']', '}', ';}']), Alt([';', ')', ' in e)']), Alt([';);', ';'])))
    add('literals', T(Alt("0 1.5 0x1f 'a' /r/g this null true false [] {} f() function(){}"), ARITH, Alt("0 1.5 0x1f 'a' /r/g this null true false [] {} f() function(){}"))) if deep else \
        add('literals', T(Alt("0 1.5 'a' /r/g this null [] {} function(){}"), Alt('+ / in ='), Alt("0 1.5 'a' /r/g this null [] {} function(){}")))
    add('stmt-pos', T(Alt('+ ( [ { function ! new /'), ID, Alt('* ) ] } () ; /'), ID))
    add('args', T('f(', ID, ARITH, ID, ',', ID, ASSIGN, ID, ')'))
    if deep:
        add('five', T(ID, LEVELS, ID, LEVELS, ID, some, ID, some, ID, some, ID))
        add('unary-chain', T(PREFIX, PREFIX, ID, Alt('++ -- + .b'), ARITH, PREFIX, ID))

def _P03(add, many, deep):
    suf = Alt('.b [b] (b) () .if ++ (b,c) (...b)')
    add('suffix3', T(ID, suf, suf, suf))
    add('new1', T('new ', ID, suf, suf, suf))
    add('new2', T('new new ', ID, suf, suf, suf, suf if deep else Alt('.b () (b) +1')))
    add('new3', T('new new new ', ID, Alt('() .b (c)'), Alt('() .b [d]'), Alt('() .b ;'), Alt('() .b ;')))
    add('new-op', T(Alt('new typeof - delete'), Alt('new typeof'), ID, Alt('() .b +c'), Alt('() .b +c')))
    add('new-primary', T('new ', Alt("(a) this [] {} 0 's' /r/ null function(){} new.target (a()) (a,b)"), Alt('() .b ; [c]'), Alt('() .b ;')))
    add('new-target', T('function f(){', Alt('new.target new.targes new.tar'), Alt('.a () ; +1 [0]'), Alt('.a () ; =1'), '}'))
    add('new-target2', T('function f(){new new.target', Alt('.a () ; [0] +1'), Alt('.a () ;'), ';}'))
    add('args', T('f(', Alt('a ...a ) ...a, a,'), Alt('b ...b , )'), S(',)a'), Alt('c ...c ) ;'), S(');')))
    add('brack', T(ID, '[', ID, Alt('] , = in'), ID, Alt('] ][ ]. ]('), ID, Alt('] ) ;')))
    add('dot', T(ID, S('. \n'), S('. ab'), Alt('if new x yield 0 class function . (')))
    word = Alt(RESERVED)
    for i, u in enumerate(['a.%s', 'a.%s()', '({%s:a})', '({%s(){}})', '({get %s(){}})', '({set %s(a){}})', '({*%s(){}})', '({%s})', '({%s,a})', '({a,%s})', '({a,%s,b})', '[%s]', 'f(%s)', 'a=%s', 'x=function %s(){}', 'var %s', 'a.b.%s.c', 'new a.%s', '%s=a', '(%s)', 'a[%s]', 'a+%s', '-%s', '%s.a', '%s:a', 'a?%s:b', 'function f(%s){}', 'for(%s in a);']):
        a, b = u.split('%s')
        add('word%d' % i, T(a, word, b))
    kinds = Alt('a 0 "s" /r/ this null true false 1.5e3 017 0b1 \'\\x41\'')
    add('primary', T(kinds, Alt('; + .b ,'), kinds))
    add('array', T('[', S('a, ]'), S('a, ]'), S('b, ]'), S('b, ]'), ']'))
    add('array2', T('[', Alt('a ...a , ]'), S(',]'), Alt('b ...b ,'), S(',] '), Alt('c ] ,'), S('] ')))
    add('array-in', T('x=[', ID, Alt('in = ? + ,'), ID, Alt(': ] ,'), ID, S('] ')))
    p = Alt('a 0 "s" get set if static')
    add('object1', T('({', p, Alt(': (){} , } '), Alt('b b} b}) }) ;'), Alt(', } ;'), Alt('}) ) ;')))
    add('object2', T('({', p, ':', ID, Alt(', }'), p, ':', ID, Alt('} ,}'), ')'))
    add('getter', T('({', Alt(['get ', 'set ']), Alt('a 0 "s" if get : , }'), Alt('(){} (v){} :1 b(){}'), Alt(', }) ;'), Alt('}) ;')))
    add('getter2', T('({', Alt(['get ', 'set ']), Alt('a "b" 1 .5'), '(', S('v )'), S(') {'), S('{ }'), Alt('} return'), S('} '), '})'))
    add('method', T('({', Alt('* a 0 if'), Alt('m (a) :b ()'), Alt('(){ {} {'), Alt('} ,'), Alt('} })'), S(');')))
    add('shorthand', T('({', ID, Alt(', :a, }'), Alt('b get this let 0 "s"'), Alt('} :c} ,'), S(') ')))
    add('funexpr', T('(function', Alt('f( ( *( *f('), Alt('a a,b ...a ) a,...b'), Alt(') ){ ,c)'), Alt('{} } {return} {a}'), S(')} ')))
    add('paren', T(Alt('( (('), ID, Alt(') , =c) ))'), Alt('; ) .b (a) +c')))
    add('for-head', T('for(', Alt(['a[', 'a=[', 'f(', 'a={b:', 'new a(', 'x=function(){', 'x=function(){var a=', 'a={get b(){', '(', 'new a[', 'a={b(){', 'f(...', '[...']), 'b', Alt([' in', '+', ',', ' =']), ' c', Alt([']', ')', '}', ';}', '}}', ';}}']), Alt([';;);', ';', ' in d);', '=e;;);'])))
    if deep:
        add('suffix4', T(ID, suf, suf, suf, suf))
        add('object3', T('({', p, Alt(': (){} ,'), p, Alt(': (){} , }'), p, Alt(': (){} }'), Alt('} b}'), ')'))

# ---------------------------------------------------------------- statements
def _P04(add, many, deep):
    st = Alt('a; {} ; b;c if(d)e; while(f)g; for(;;)h; do;while(i) x:y; else')
    add('two', T(st, st))
    add('if', T('if(', ID, ')', st, Alt('else c; }'), st))
    add('if-else-chain', T('if(a)', Alt('if(b) c; {}'), Alt('d; else ; {}'), Alt('else e; ;'), Alt('f; else if(g)'), Alt('h; else ;')))
    add('if-else-tail', T('if(a)', Alt(['if(b)', 'c;', '{}']), Alt(['d;', 'else ', ';']), Alt(['else e;', 'f;', ';']), Alt(['else ', 'g;', ';']), Alt(['h;', 'i;else j;'])))
    add('if-hold', T('if(a)', Alt(['for(;;)', 'while(b)', 'with(b)', 'l:', 'for(b in c)', 'do ', '{', 'else ']), Alt(['if(d)', 'if(d)e;else ', '']), 'f;', Alt(['else g;', 'while(h);', '}', '}else i;']), Alt(['else j;', 'k', 'else;'])))
    add('if-cut', T('if', S('( a'), S('a)('), S(') a'), Alt('b; ; {} else }'), Alt('else c; }'), Alt('d; ; }')))
    add('while', T('while(', ID, Alt(') ,b) =c) ('), st))
    add('do', T('do ', st, Alt('while until'), Alt('(a) (a,b) () a'), Alt('; b ;b')))
    add('do-newline', T('do', S(' \n;'), S('a;{'), S(' \n;}'), 'while', S('(\n '), S('(a'), S('a)'), S(' )'), S(' ;\nb'), S('b;')))
    h = Alt('; a; a,b; a=b;'.split())
    add('for', T('for(', h, Alt('; a; a,b; a+b;'), Alt(') a) a,b) a=b) ;)'), st))
    add('for-var', T('for(var a', Alt('; =b; ,c; =b,c=d; =b;c'), Alt('; c; )'), Alt(') d) ;)'), S('e;')))
    add('for-second', T('for(', Alt('var let const'), ' a', Alt(['', '=b']), ',c', Alt(['', '=d', '=d in e', '=(d in e)']), Alt([';;)', ' in f)', ' of f)', ';']), 'g;'))
    add('for-third', T('for(', Alt(['var a,b', 'let a,b', 'var a,b=c', 'a,b', 'a=b,c']), Alt(['', '=d', ' in d']), Alt(['', ',e', ',e=f', ',e in f']), Alt([';;)', ' in g)', ' of g)']), 'h;'))
    add('for-let', T('for(', Alt('let const var'), ' ', ID, Alt('; =b; ,c; =b,c=d; =b,c;'), Alt('; c; )'), Alt(') d) ;)'), ';'))
    add('for-in', T('for(', Alt('a var let const a.b a[0] f() 0 a=b'), Alt('in of x ;'), Alt('in of b ,c'), Alt('b b,c b=c )'), Alt(') ;'), Alt('d; {} ;')))
    add('for-in-expr', T('for(', ID, Alt('.b [b] ,b =b ++ in'), Alt('in of ;'), ID, Alt(') ,d) =d)'), ';'))
    add('for-kw', T('for', S('( a'), Alt('; var let const a )'), Alt('; x ) ,'), Alt('; in of ) ='), Alt('; b )'), Alt('; ) b'), Alt(') b;')))
    add('switch', T('switch(', ID, '){', Alt('case default }'), Alt('a: : a'), Alt('b; case c; }'), Alt('case default }'), Alt('d: : }'), Alt('e; ; }'), Alt('} ;')))
    add('switch-seq', T('switch(a){case ', ID, Alt(', : ?b:'), Alt('c: d; :'), Alt('{} ; break; }'), Alt(['default:', 'case e:', 'f;']), Alt('g; }'), '}'))
    add('try', T('try', Alt('{} a; {a}'), Alt('catch finally ; {}'), Alt('(e){} {} (e) (e)a'), Alt('catch finally ; {}'), Alt('{} (e){} ;')))
    add('try-cut', T('try{', S('}a'), Alt('catch finally }'), S('( {'), S('e )'), S(') }'), S('{ ;'), S('} ;'), Alt('finally ; catch'), S('{ ;'), S('} ;')))
    add('throw', T('throw', S(' \n('), Alt('a ; } +a'), Alt('; ,b; }')))
    add('with', T('with(', ID, Alt(') ,b) ('), st))
    add('debugger', T('debugger', S(';\n a'), S('a;} '), ';'))
    add('block', T('{', st, Alt('} ;'), st if deep else Alt('{ } a;'), Alt('} ;')))
    add('var', T(Alt('var let const'), ' ', ID, Alt('; =b =b,c ,c ,c=d in of'), Alt('; ,e =f }'), ID))
    add('var2', T(Alt('var let const'), S(' \n'), Alt('a , = { 0 if'), S('=,;\n '), Alt('b ; ,'), S(',;=\n'), Alt('c ;'), S(';=')))
    add('decl-pos', T(Alt('if(a) while(a) for(;;) a: { else do'), Alt(['var b;', 'let b;', 'const b=c;', 'let', ';']), Alt('} while(c) ; else')))
    add('label', T(Alt(['a:', 'b:', 'c', 'if:', 'let:', '0:']), Alt(['d:', 'e;', '{', ';', 'for(;;)']), Alt('f; } ;')))
    add('function', T('function', Alt([' f', '*', '* g', ' ']), '(', Alt('a a,b ...a ) a,'), Alt(') c) ...d) ,b)'), Alt('{} {return;} {a} {'), Alt('} ; g')))
    add('function-body', T('function f(){', st, Alt(['return;', '}', 'return a;', 'return']), Alt('} ; a'), '}'))
    add('nested', T('function f(){', Alt('function if(a) { a:'), Alt([' g(){', '{', 'b;', ' h']), Alt('return; } c;'), Alt('} ;'), '}'))
    add('empty', T(S('; {}'), S('; {}'), S('; {}')))
    add('expr-stmt', T(Alt(['a', 'function', '{}', '(a)', '[a]', 'new', '+a', 'let']), Alt(['; ', '(b)', '[c]', '=d', '.e', '/f']), Alt('; +g')))
    if deep:
        add('three', T(st, st, st))
        add('for-full', T('for(', Alt(['var a', 'let a', 'const a', 'a', '']), Alt('; =b; ,c; in of'), Alt('; c; d )'), Alt('; e ) ,f'), Alt(') g'), st))

# ---------------------------------------------------------------- semicolons
def _P05(add, many, deep):
    sep = S(' \n;}\r\u2028')
    end = Alt(['a', '(a)', '[a]', '+a', '++a', '/a/g', '-a', '{}', ';', '}', ',a', '.a', '=a', 'if(a);', '!a', 'in a', '?a:b', '"a"', '0', 'else'])
    for i, w in enumerate(['a', 'a++', 'a()', 'a.b', '0', '"a"', '/a/', 'this', '[]', '(a)', 'x=function(){}', 'x={}', 'a=b', 'typeof a', '-a', 'new a', 'a?b:c', 'a,b']):
        add('expr%d' % i, T(w, sep, end))
    for i, w in enumerate(['var a', 'var a=b', 'let a', 'const a=b', 'debugger', 'throw a', 'do;while(a)', 'if(a)b', 'while(a)b', '{a', 'l:a', 'for(;;)a', 'do a']):
        add('stmt%d' % i, T(w, sep, end))
    for i, w in enumerate(['return', 'return a', 'break', 'continue', 'throw', 'break l', 'continue l', 'yield']):
        add('fun%d' % i, T('function f(){l:for(;;){', w, S(' \n;}\r'), end, S('}\n'), '}}'))
    gap = Alt([' ', '\n', '/**/', '/*\n*/', '//\n', ';'])
    add('comment', T('a', gap, Alt('b ++ / ( }'), gap, Alt('c ; }')))
    add('comment2', T('{a', gap, '}', gap, Alt('b } ;')))
    add('postfix', T(ID, S(' \n'), Alt('++ --'), S(' \n;'), Alt('b ; ++ }')))
    add('postfix2', T(ID, S(' \n'), Alt('++ -- + -'), S(' \n'), Alt('++ -- + b'), S(' \n'), ID))
    add('return', T('function f(){return', S(' \n\r\u2028\u2029'), S(' \n'), Alt('a (a) } ; +a /a/'), S(' \n}'), '}'))
    add('jump', T('a:for(;;){', Alt('break continue'), S(' \n\u2029'), Alt('a ; } b'), S(' \n;'), Alt('} c'), '}'))
    add('throw', T('throw', S(' \n\u2028'), Alt('a ; } (a'), S(' \n)'), Alt('b ; }')))
    add('do-while', T('do', Alt([' a', ' a;', '{}', '\na', ';']), S(' \n;'), 'while(b)', S(' \n;'), Alt('c ; } +d (e)')))
    add('if-else', T('if(a)', Alt(['b', 'b;', '{}', ';', 'b\n']), S(' \n;'), Alt('else c ;'), S(' \n'), Alt('d ; }')))
    add('for-header', T('for(', S('a;\n'), S(';\n '), S('b;\n'), S(';\n '), S('c)\n'), ')', S('d;\n')))
    add('jump-switch', T('a:for(;;)switch(b){case 0:', Alt('break continue'), S(' \n\u2029'), Alt('a ; } b'), S(' \n;'), Alt('} c'), '}'))
    add('eof', T(Alt(['a', 'a++', 'var a', 'debugger', 'throw a', 'do;while(a)', 'if(a)b', 'if(a)', 'throw', 'a+', 'for(;;)', 'while(a)', 'l:', 'break', 'continue']), S(' \n;}')))
    add('brace', T('{', Alt(['a', 'a=b', 'var c', '', 'a++', ';']), S(' \n;'), Alt(['}', 'b}', '}}', '']), S(' \n;'), Alt('c ; }')))
    add('open', T(Alt(['a', 'a=b', '"s"', 'f()', 'x=function(){}']), '\n', S('(['), ID, S(')]'), S('\n;'), ID))
    add('html', T('a\n-->b\n', S('c-'), S('-\n'), S('->')))
    if deep:
        for i, w in enumerate(['a', 'a()', 'var a=b', 'return', 'do;while(a)', 'throw a', 'debugger', 'break']):
            add('deep%d' % i, T('function f(){for(;;){', w, sep, sep, end, sep, end, '}}'))

# ---------------------------------------------------------------- jumps and labels
def _P06(add, many, deep):
    j = Alt(['break;', 'continue;', 'return;', 'break a;', 'continue a;', 'break b;', 'continue b;', 'c;'])
    hold = ['%s', 'for(;;)%s', 'while(x)%s', 'do %s while(x)', 'switch(x){case 1:%s}', 'switch(x){default:%s}', '{%s}', 'if(x)%s', 'if(x);else %s', 'with(x)%s', 'try{%s}finally{}', 'try{}catch(e){%s}',
            'try{}finally{%s}', 'for(x in y)%s', 'for(x of y)%s', 'for(var x in y)%s', 'for(let x of y)%s', 'function f(){%s}', 'x=function(){%s}', '({get x(){%s}})', '({set x(v){%s}})', '({m(){%s}})', '({*m(){%s}})']
    def fill(h, inner):
        a, b = h.split('%s')
        return T(a, inner, b)
    for i, h in enumerate(hold):
        add('in%d' % i, fill(h, [j]))
        add('lab%d' % i, T(Alt(['a:', 'b:', 'a:b:', ';']), fill(h, [j])))
    lab = Alt(['a:', 'c:', ';'])
    outer = hold if deep else [h for h in hold if h[:3] in ('for', 'whi', 'do ', 'swi', '{%s', 'fun', 'if(', 'try', '({g')][:9]
    for i, h in enumerate(outer):
        for k, g in enumerate(hold):
            if not deep and (i + k) % 3:
                continue
            add('two%d-%d' % (i, k), T(lab, fill(h, [lab] + fill(g, [j]))))
    many('after', [T(h, j) for h in [x.replace('%s', 'x;') for x in hold]])
    inner = Alt([x.replace('%s', 'x;').replace('do x; while(x)', 'do x;while(x);') + (';' if x[0] in '(x' and x != 'x;' else '') for x in hold])
    inner2 = Alt(['a:x;', 'b:{}', 'a:for(;;);', 'a:b:x;', 'b:a:{}', 'a:switch(x){}', 'b:function f(){}', 'x;', 'a:b:for(;;);', 'b:a:while(x){}', 'x=function(){a:x;}', '{a:{b:;}}', 'for(;;)a:;', 'switch(x){case 1:b:;}'])
    for k, h in enumerate(['%s', 'for(;;){%s}', 'switch(x){case 1:%s}', 'switch(x){default:%s}', 'function f(){%s}', 'do{%s}while(x)', 'for(x in y){%s}', '{%s}', 'x=function(){for(;;){%s}}', 'if(x){%s}', 'try{%s}finally{}', 'function f(){switch(x){case 1:%s}}']):
        add('resume%d' % k, T(Alt(['a:', 'c:', 'b:', ';']), fill(h, [inner, j])))
        add('dropped%d' % k, T(Alt(['a:', 'c:', 'b:', ';']), fill(h, [inner2, j])))
    add('resume-deep', T('a:for(;;){b:', Alt(['for(;;)', 'switch(x){case 1:', '{', 'function f(){', 'x=function(){', 'if(x)', '({get x(){']), inner, Alt(['}', '', '}})', ';']), j, '}'))
    add('labels-list', T(Alt(['a:b:', 'b:a:', 'a:c:b:', 'b:c:a:']), Alt(['for(;;)', '{', 'x;', 'switch(x){case 1:']), j, Alt(['}', '', ';']), j))
    many('label-scope', [T('a:', h, Alt(['break a;', 'continue a;', 'a:;', 'break;', 'b;'])) for h in ['x;', '{}', 'for(;;);', 'switch(x){}', 'function f(){}'][:4]])
    add('sym-label', T(ID, ':for(;;){', Alt('break continue'), ' ', ID, '}'))
    add('sym-label2', T(ID, ':', ID, ':', Alt(['for(;;)', '{', 'while(x)', 'c:for(;;)']), Alt('break continue'), ' ', ID, Alt(['', '}', ';'])))
    add('nested-label', T('a:{b:', Alt(['for(;;)', 'x;', '{']), 'c:', Alt(['for(;;)', 'switch(x){case 0:', '{']), j, Alt('} }} }}}'), Alt('} ;')))
    add('default', T('switch(a){', Alt(['default:', 'case 1:']), Alt(['default:', 'case 1:', 'b;', '{']), Alt(['default:', 'case 1:', 'break;', '}']), Alt(['default:', '}', 'case 2:']), Alt(['}', ';'])))
    add('default-nest', T('switch(a){default:switch(b){', Alt(['default:', 'case 1:']), Alt(['}default:', '}case 1:', '}', 'default:']), Alt(['}', 'default:', ';']), Alt(['}', ';'])))


# ---------------------------------------------------------------- assignment targets
def _P07(add, many, deep):
    tgt = Alt(['a', 'a.b', 'a[b]', 'f()', 'f().a', 'this', '0', '"s"', 'new a', 'a+b', '(a)', '(a.b)', '(a+b)', 'a++', '-a', 'null', 'function(){}', '/r/', 'this.a', 'new a().b', 'a?b:c', 'a=b', 'typeof a', '{}.a'])
    add('assign', T('x,', tgt, Alt(['=b', '+=b', '++', '--', ';'])))
    add('update', T(Alt(['++', '--', '+', '- --']), tgt))
    add('update2', T(Alt(['++', '--']), Alt(['a', 'a.b', 'f()', '++a', '-a', '(a)', '(a,b)', 'a[0]', 'new a']), Alt(['.c', '()', '[d]', '++', '', '+b'])))
    add('for-in', T('for(', tgt, Alt(['in b', ' of b', ';;']), ');'))
    e = Alt(['a', 'a.b', 'a[b]', 'f()', '0', '[c]', '{c}', 'this', '...d', '', '-a', '[0]', '{e:0}', '(f())'])
    add('array', T('[', e, Alt([',', '']), e, ']', Alt(['=x', ' of', '+=x', '++'])))
    add('array3', T('[', Alt(['a', '', '...a', '0', '[b]']), ',', Alt(['c', '', '...c', '...[d]', '...{e}', '...0']), Alt(['', ',', ',f']), ']=x'))
    v = Alt(['a', 'a.b', 'f()', '0', '[c]', '{d}', '{d:0}', 'this', '-a', '[...g]', '[...g,h]'])
    add('object', T('({', Alt(['p', '"q"', '0', 'get', 'if']), ':', v, '}', Alt(['=x', '+=x', '++', ' in x']), ')'))
    add('object-member', T('({', Alt(['p', 'p:a', 'get p(){}', 'set p(v){}', 'p(){}', '*p(){}', '"p":a', '0:a', 'get', 'set:a']), Alt([',', '']), Alt(['q', '', 'q:b', 'q(){}', 'get q(){}', 'q:0']), '}=x)'))
    add('nested', T('[', Alt(['[', '{a:[', '{a:{b:', '[[', '[{a:']), Alt(['c', '0', 'c.d', 'f()', '...c']), Alt([']', ']}', '}}', ']]', '}]']), ']', '=x'))
    add('chain', T(Alt(['a', '[a]', '{}', 'f()', 'a.b']), Alt(['=', '+=', '==']), Alt(['c', '[c]', '(c)', 'f()', '({c})', '0']), Alt(['=', '+=', ',']), 'e'))
    add('chain2', T('x=', Alt(['a', '[a]', '{b}', '{b:0}', '[0]', 'f()']), Alt(['=', '-=', '?']), Alt(['c', '[c]', '{d}', '0']), Alt(['=y', ';', ':z', '++'])))
    add('seq', T('(', ID, S(',+='), ID, ')', Alt(['=c', '++', '+=c', '.d=c', '[0]=c', ';'])))
    add('shorthand', T('({', ID, Alt([',', ':', '}=x)', '()']), Alt(['b', 'b}', '0', 'eval', '{}}']), Alt(['}=x)', ')', '})', '}++)'])))
    add('unary', T(Alt(['-', '!', 'typeof ', 'delete ', 'void ', '++', 'new ']), Alt(['a', 'a.b', '[a]', 'a()', '(a)']), Alt(['=b', '++', '.c', '+=b', '.c=d', '.c++'])))
    add('cond', T('a?b:', ID, Alt(['=c', '++', '+=c', ';']), Alt(['', '?d:e', '=f'])))
    add('cond-target', T(Alt(['a?b:c', '(a?b:c)', 'a||b', 'a&&b', '(a,b)', 'a,b', '(a=b)', '((a))']), Alt(['=d', '+=d', '++', ' of', '.e=d'])))
    add('forpatt', T('for(', Alt(['[a]', '{a}', '[a,...b]', '[0]', '{a:0}', '{a:b.c}', '[a.b]', '[...a,b]', '{get a(){}}', '[[a]]', '[a]=b', '{a}.b', '[a][0]']), Alt([' in ', ' of ', ';']), 'x', Alt([');', ';;);'])))
    if deep:
        add('array4', T('[', e, ',', e, ',', e, ']=x'))
        add('object2', T('({p:', v, ',', Alt(['q', 'q:b', '"r":0', 'get q(){}']), ',s:', v, '}=x)'))

# ---------------------------------------------------------------- strict mode
def _P08(add, many, deep):
    both = (SCRIPT, STRICT) if not deep else (SCRIPT, STRICT, MODULE)
    words = ['implements', 'interface', 'let', 'package', 'private', 'protected', 'public', 'static', 'yield', 'eval', 'arguments', 'await', 'undefined', 'async', 'of', 'get', 'set', 'target', 'impl', 'enum', 'publik']
    w = Alt(words)
    use = ['%s', 'a=%s', 'var %s', 'var a,%s=b', 'let %s', 'const %s=a', 'function %s(){}', 'function f(%s){}', 'function f(a,%s){}', 'function f(...%s){}', 'a=function %s(){}', '%s:;', 'a.%s', '({%s:a})', '({%s})', '({%s(){}})',
           '({get %s(){}})', '({set a(%s){}})', 'try{}catch(%s){}', 'for(var %s in a);', 'for(%s in a);', '%s=a', '%s++', '--%s', '[%s]=a', '({a:%s}=b)', 'f(%s)', 'new %s', 'typeof %s', 'a?%s:b', 'for(;;)break %s',
           'x=function(){%s}', '(%s)', 'delete %s', '%s+=a', 'for(let %s of a);', 'a[%s]', 'switch(%s){}', 'with(a)%s', 'throw %s', 'function f(){return %s}']
    for i, u in enumerate(use):
        a, b = u.split('%s')
        add('word%d' % i, T(a, w, b), modes=both)
    add('word-await', T(Alt(['', 'var ', 'a.', 'function ', '({', 'function f(){']), Alt(['await', 'awaiu', 'yield']), Alt(['', '(){}', ':a})', '}', '=a'])), modes=(SCRIPT, STRICT, MODULE))
    add('with', T('with(a)', Alt(['b', '{}', ';', 'with(c);'])), modes=(SCRIPT, STRICT, MODULE))
    us = Alt(['"use strict"', "'use strict'", '"use strict";', '"use\\x20strict"', '"use  strict"', '"Use strict"', '"use strict ', '("use strict")', '"use strict"+a', '"use strict",a', '', '"a";"use strict"', '"a"\n\'use strict\'', 'a;"use strict"', '"use strict".b', '"use strict"\n'])
    viol = Alt(['with(a);', 'var yield;', 'var eval;', 'a;', 'let:;', 'x=static;'])
    add('directive', T(us, S(';\n '), viol), modes=(SCRIPT, STRICT))
    add('directive-fun', T('function f(){', us, S(';\n '), viol, '}', Alt(['with(b);', 'var static;', 'c;', ''])))
    add('directive-nest', T('function f(){', Alt(['"use strict";', '"a";', '']), 'function g(){', Alt(['"use strict";', '']), Alt(['with(a);', 'public;', 'b;']), '}', Alt(['with(c);', 'private=1;', 'd;']), '}', Alt(['with(e);', 'var let;', 'g;'])))
    add('directive-expr', T(Alt(['x=function(){', '({get a(){', '({m(){', '({set a(v){', '({*m(){']), Alt(['"use strict";', '"use_strict";', '']), Alt(['with(a);', 'var public', ';']), Alt(['}', '}})']), Alt([';with(b);', ';c', ',{m(){with(d);}}', ''])))
    add('restore', T(Alt(['"use strict";', '']), 'function f(){', Alt(['"use strict";', '']), '}', 'with(a)', Alt([';', '{}'])))
    add('param-name', T('function', Alt([' eval', ' f', '']), '(', Alt(['a', 'static', 'arguments', '']), '){', Alt(['"use strict"', 'b', '']), '}'))
    q = S('"\'')
    add('directive-sym', T(q, 'use', S(' \\_x'), 'strict', q, S(';\n+.'), 'with(a);'))
    add('directive-sym2', T('"', S('uU\\ '), S('s5'), S('eE '), ' strict"', S(';\n'), 'static'))
    add('directive-line', T(Alt(['', 'function f(){']), '"use strict"', Alt(['\n', '', ';', '/*\n*/', '//\n']), Alt(['+b', '.b', '(c)', '[d]', '?e:f', '=g', '++h', 'in i', 'of', 'a', '/c/g', ',j', '-k', '!l', ';', '}', '"m"', '']), Alt([';', '\n']), Alt(['with(a);', 'static', 'b']), Alt(['', '}'])))
    add('third', T(Alt(['"a";', '']), '"b";', Alt(['"c";', '"use strict";', 'c;']), Alt(['"d";', '"use strict";', '']), Alt(['with(a);', 'static', 'b'])))
    add('third-fun', T('function f(){', Alt(['"a";', '']), "'b';", Alt(['"c";', '"use strict";', 'c;']), Alt(['"d"\n', '"use strict"\n', '']), Alt(['with(a);', 'static', 'b']), '}', Alt(['with(c);', ''])))
    add('second', T(Alt(['"a"', '1', '"use strict"', 'a', '"a"+b', '']), S(';\n'), '"use strict"', S(';\n'), Alt(['with(a);', 'static', 'b'])))
    add('number-key', T('({', Alt(['static', 'eval', 'yield', 'let', 'a']), Alt([':a', '(){}', '']), Alt([',', '}']), Alt(['b})', ')', 'eval})'])), modes=both)
    add('labels', T(Alt(['static', 'a', 'yield', 'eval']), ':for(;;)', Alt(['break ', 'continue ']), Alt(['static', 'a', 'yield', 'eval'])), modes=both)
    if deep:
        for i, u in enumerate(use):
            a, b = u.split('%s')
            add('in-fun%d' % i, T('function f(){', Alt(['"use strict";', '']), a, w, b, '}', Alt(['static', 'a'])))

# ---------------------------------------------------------------- programs whose goal is decided later
def _P09(add, many, deep):
    goals = (3, 4, 5)
    names = Alt(['a', 'static', 'eval', 'await', 'yield', 'let'])
    w = Alt(RESERVED)
    add('word', T(Alt(['', 'var ', 'a.', 'a+']), w), modes=goals)
    add('word-key', T('({', w, Alt([':1})', '})', '(){}})'])), modes=goals)
    add('name', T(Alt(['', 'var ', 'f(', '({']), names, Alt(['', '=b', ')', ':1})'])), modes=goals)
    add('name2', T(names, ';', Alt(['', 'var ']), names), modes=goals)
    add('fun', T('function f(', Alt(['', 'a', 'static', 'await']), '){', Alt(['"use strict";', '']), Alt(['with(a);', 'b', 'await', 'var eval']), '}', Alt(['', 'with(b);', 'static', 'await'])), modes=goals)
    add('with', T(Alt(['', '"use strict";', '"a";']), 'with(a)', Alt([';', 'static', 'await', 'with(b);']), Alt(['', 'c'])), modes=goals)
    add('stmt', T(Alt(['a', 'if(a)b;', 'for(;;)c;', '{', 'function f(){', 'return', 'var a', 'x:', 'break']), S(' ;\n}'), Alt(['d', '}', 'else e', 'continue', ';', 'static'])), modes=goals)
    add('end', T(Alt(['a', '{}', '', '"s"']), S(' ;}\n'), Alt(['}', 'case', 'default', ')', '', 'b', 'else'])), modes=goals)
    add('dir', T(Alt(['"use strict"', '"a"', '']), S(';\n'), Alt(['with(a);', 'static', 'await', 'eval', 'var eval', 'c'])), modes=goals)
    add('expr', T(ID, LEVELS if deep else Alt('|| == + *'), ID, Alt('= ? + * in'), ID, S(':; ,'), ID), modes=goals)
    add('obj', T('({', Alt(['static', 'await', 'a', 'get b(){}', 'm(){}']), Alt([':1', '', ':with', ':await']), '})'), modes=goals)
    add('two-checks', T(Alt(['await', 'static', 'a']), Alt([';with(b);', ';await', ';static', '']), Alt(['c', ';var eval', ';await'])), modes=goals)
    add('label', T(Alt(['await', 'static', 'a']), ':', Alt(['for(;;)', '']), Alt(['break ', 'continue ', '']), Alt(['await', 'static', 'a'])), modes=goals)
    add('any', T(X, X), modes=goals)

# ---------------------------------------------------------------- slash
def _P10(add, many, deep):
    before = ['a', ')', '0', ';', '}', '{', '(a)', '[a]', 'this', 'a++', 'a--', '++a', 'f()', 'x={}', '{}', '!', '-', '+', '*', '=', ',', ':', '?', '~', '<', 'a.b', 'a.if', 'a.return', '"s"', '/r/', '/r/g', 'null', 'true',
              'typeof', 'void', 'delete', 'new', 'in', 'instanceof', 'else', 'do', 'throw', 'if(a)', 'while(a)', 'for(;;)', 'with(a)', 'x=function(){}', 'function f(){}', 'l:', 'yield', 'get', 'let', 'of', 'case', 'var a=', 'a,', '(', '[', 'f(', 'a[',
              'a?', 'a?b:', '({a:', '({a(){}}', 'debugger\n', 'a\n', 'a++\n', ')\n', '}\n', 'x={}\n', '{}\n', 'a/**/', 'a//\n', '/**/', 'a=b\n', '"s"\n', 'switch(a){case ', 'switch(a){case 0:', 'switch(a){default:', 'try{}finally{}', 'try{}catch(e){}',
              'do;while(a)', 'do{}while(a)', 'a+', 'a instanceof ', 'x=a in ', 'new a', 'new a()', 'super', '...', 'f(...', '[...', '=>', 'import', 'class{}', 'const a=', 'return', 'function(){return ', 'x=function(){return ', 'for(a of ', 'for(a in ', 'for(', 'for(;', 'for(;;',
              'if(a)b;else', 'if(a){}else\n', 'while(', 'if(', 'switch(', 'with(a){}', 'do{}while(', 'for(let a of ', 'for(var a=', 'let a=', 'for(;;){break', 'a:for(;;){continue a', 'function f(){return', 'function f(){', '({get a(){', '({m(){return',
              'x=[a,', 'f(a,', 'a=>', 'try{', 'try{}catch(e){', 'if(a){', 'switch(a){case 0:break;', 'a?b:c', 'new a.b', 'x=function(){}()', '({})', 'a[b]', 'a.get', 'yield\n', 'let\n', 'debugger']
    glue = lambda b: b if not (b[-1].isalnum() or b[-1] in '$_') else b + ' '
    def close(b):
        # what completes the construct that is open behind b
        st = []
        for ch in b:
            if ch in '([{':
                st.append({'(': ')', '[': ']', '{': '}'}[ch])
            elif ch in ')]}' and st:
                st.pop()
        t = ''.join(reversed(st))
        head = {'switch(': '){}', 'do{}while(': ')', 'for(let a of ': ');', 'for(var a=': ';;);', 'for(': ';;);', 'for(;': ';);', 'for(;;': ');', 'for(a of ': ');', 'for(a in ': ');', 'do': '\nwhile(z)', 'a?': ':z', 'if(a){': '}', 'switch(a){case ': ':}', '({a:': '})', '({a(){}}': ')'}
        if b in head:
            return head[b]
        if st and st[-1] == '}' and b[-1] not in '([':
            t = '\n' + t
        return t
    for i, b in enumerate(before):
        if close(b):
            add('closed%d' % i, T(glue(b), Alt(['/b', 'a /b', '/=', '(a) /b']), Alt(['/', '/g', '']), Alt(['.c', '+d', '']), close(b), Alt([';', ';/e/', '\n/f/g'])))
        add('after%d' % i, T(b, Alt(['/b', '/=', '/ ', '/[']), Alt(['/', '/g', ';', '']), Alt(['.c', ')', ';', '/', ']']) if deep else Alt(['.c', ')', ';'])))
    for i, b in enumerate(before):
        add('then%d' % i, T(glue(b), Alt(['a', '0', '(a)', 'a++', '[a]', '"s"', 'this', 'a.b', 'f()', 'l:', 'l:a', '{}', 'a\n']), Alt(['/b', '/=', '/ ']), Alt(['/', '/g', ';', '']), Alt(['.c', ')', ';'])))
    many('expr', [T(x, S('/\n '), S('a/= '), S('/=g'), S('b/; '), S('/g;')) for x in ('a', '(a)', 'x=', '}', '{}', 'a++', '')])
    add('class', T('x=/', S('[a\\'), S(']/a'), S('/]\\'), S('/]a'), S('/;]'), Alt(['', '/', ';'])))
    add('flags', T('/a/', S('gimuyx/\\ '), S('gim/+.('), S('g;.) ')))
    add('div-div', T(ID, S('/ \n'), S('/a='), ID, S('/ \n'), S('/a'), ID))
    add('regexp-call', T(Alt(['f(', 'a[', '(', '!', 'x=']), '/', S('ab/'), S('/b'), Alt([')', ']', ',c)', '/d', ';', '.e)'])))
    add('assign-op', T(Alt(['a', 'a.b', 'a()', '(a)', '/a']), '/=', Alt(['b', '/b/', 'b/c', '/']), Alt(['', '/', ';', '/g'])))
    add('brace', T(Alt(['{', 'x={', '({', 'if(a){', 'f({']), Alt(['}', 'a}', 'a:b}', '})']), S('/\n'), Alt(['b', 'b/', '/b/', '=c']), Alt(['/d', ';', ')', 'g'])))

# ---------------------------------------------------------------- any tokens
def _P12(add, many, deep):
    tok = [t.replace('_', ' ') for t in TOKENS]
    pad = Alt([t + ' ' for t in tok])
    for i, t in enumerate(tok):
        add('soup%d' % i, T(t + ' ', pad) if not deep else T(t + ' ', pad, pad))
    some = Alt(['a', '0', '(', ')', '{', '}', ';', ',', '=', '+', '.', '\n', ':', '?', '++', '[', ']'])
    add('sym3', T(Alt([x for x in some]), some, some))
    few = Alt(['a ', '(', ')', '{', '}', ';', '\n', '+', ','])
    add('sym4', T(few, few, few, few))
    add('sym5', T(Alt(['a ', '(', '{', '[', 'f(']), Alt(['a ', '+', ')', ']', '}']), Alt(['b', ';', ',', '(']), Alt([')', '}', ']', 'c']), Alt([';', ')', '=d', '}'])))
    add('any1', T(X))
    add('any2', T(X, X))
    add('kw', T(Alt(['if', 'for', 'while', 'do ', 'switch', 'with', 'try', 'throw ', 'return ', 'function', 'var ', 'let ', 'const ', 'case ', 'else', 'catch', 'finally', 'break ', 'continue ', 'default', 'debugger', 'new ', 'in ']),
                Alt(['(', '{', 'a', ';', ')', '}', ':', '\n']), Alt(['a', ')', '}', ';', '(', '{', ':', '=']), Alt([')', '}', ';', 'b', ''])))
    w = Alt(RESERVED)
    add('word-place', T(Alt(['a.', 'var ', '({', '({a,', '', 'f(', 'a+', 'function ']), w, Alt([';', ':1})', '})', ',a})', '(){}', ')', '=1'])))
    add('word-word', T(w, ' ', w))
    add('any-mid', T('a', X, 'b', S('+(;\n')))
    add('any-stmt', T('{', X, '}'))
    add('any-call', T('f(', X, ')'))
    add('any-after', T('a', X, X))
    add('any-str', T("x='", X, "'", X))
    add('any-arr', T('[', X, 'b]'))
    add('any-fun', T('function f(){', X, '}'))
    add('any-obj', T('({', X, ':b})'))
    add('any-name', T('var ', X, X))
    add('any-num', T('0', X, X))
    if deep:
        add('any3', T(X, X, X))
        add('any-mid2', T('a', X, X, 'b'))
        add('sym4b', T(some, some, some, some))
    for m in (STRICT, MODULE):
        add('any2', T(X, X), modes=(m,))

# ---------------------------------------------------------------- nothing panics
PROGRAMS = ["a+b*c;", "if(a)b;else c", "for(var a=b;c;d)e;", "for(a in b)c;", "for(let a of b)c;", "while(a){b}", "do a;while(b)", "switch(a){case b:c;default:d}", "try{a}catch(b){c}finally{d}",
            "function*a(b,...c){return b}", "({a,b:c,get d(){},set e(f){},g(){},*h(){}})", "[a,,...b]", "new new a(b).c(d)", "x:for(;;)break x", "with(a)b", "a?b:c,d", "var a=b,c", "let a=b", "const a=b",
            "'use strict';a", "throw a", "a=/b/g.c", "a[b].c(d,...e)", "-typeof++a", "[a,b.c,...d]=e", "({a:b,c})=d", "function a(){new.target}", "0x1f+1.5e3", "a\n++b", "debugger;", "import a", "export a", "class a{}", "`a`", "a=>b", "yield a", "super.a", "{a:b}", "async function a(){}"]
def _P01(add, many, deep):
    modes = (0, 2, 3, 5) if not deep else (0, 1, 2, 3, 4, 5)
    add('any1', T(FULL), what=TOTAL, modes=(0, 1, 2, 3, 4, 5))
    add('any2', T(X, X), what=TOTAL, modes=modes)
    if deep:
        add('any3', T(X, X, X), what=TOTAL, modes=(0, 2, 3))
    for i, p in enumerate(PROGRAMS):
        n = len(p)
        for k in range(0, n + 1) if deep else range(i % 3, n + 1, 3):
            add('cut%d-%d' % (i, k), T(p[:k], X), what=TOTAL, modes=((0, 5) if deep else (0,) if (i + k) % 2 else (5,)))
        for k in range(0, n) if deep else range(i % 4, n, 4):
            add('sub%d-%d' % (i, k), T(p[:k], X, p[k + 1:]), what=TOTAL, modes=((0, 3) if deep else (0,)))
            if deep:
                add('del%d-%d' % (i, k), T(p[:k], p[k + 1:k + 2], X, p[k + 2:]), what=TOTAL, modes=(2,))
    # the statement, target and strictness templates, for panics alone
    for other in ('_P04', '_P07', '_P08', '_P13'):
        def again(label, t, modes=(SCRIPT,), entry='h_par', what=TREE):
            n[0] += 1
            add('%s-%s-%s' % (other[1:], label, n[0]), t, what=TOTAL, modes=(n[0] % 6,))
        n = [0]
        globals()[other](again, lambda l, ts, **kw: [again('%s%d' % (l, i), t) for i, t in enumerate(ts)], False)
    tok = [t.replace('_', ' ') + ' ' for t in TOKENS]
    pad = Alt(tok)
    add('tok2', T(pad, pad), what=TOTAL, modes=(0,) if not deep else modes)
    if deep:
        for i, t in enumerate(tok):
            add('tok3-%d' % i, T(t, pad, pad), what=TOTAL)

# ---------------------------------------------------------------- why a text is rejected
def _P13(add, many, deep):
    R = dict(what=REASON)
    add('return', T(Alt(['', '{', 'if(a)', 'a:', 'for(;;)', 'switch(a){case 0:', '"s";', 'function f(){}']), 'return', Alt(['', ';', ' a', ' a;']), Alt(['', '}', ';', '\nb'])), **R)
    add('break', T(Alt(['', '{', 'if(a)', 'a:', 'a;', 'x=function(){', 'function f(){', 'for(;;)function f(){']), Alt(['break', 'continue']), Alt(['', ';', ' a', ' a;', '\n']), Alt(['', '}', ';'])), **R)
    add('label', T(Alt(['a:', 'b:', 'a:b:', '', 'a:{']), Alt(['for(;;)', 'if(x)', '{', 'switch(x){case 0:', '']), Alt(['break ', 'continue ']), ID, Alt(['', ';', '}', '}}'])), **R)
    add('default', T('switch(a){', Alt(['default:', 'case 0:']), Alt(['b;', '']), Alt(['default:', 'case 1:']), Alt(['c;', '', 'default:']), '}'), **R)
    add('with', T('with(a)', Alt(['b', ';'])), modes=(1, 2), **R)
    add('with-dir', T(Alt(['"use strict";', 'function f(){"use strict";']), Alt(['with(a);', 'with(b)c', 'if(a)with(b);']), Alt(['', '}'])), **R)
    add('throw', T('throw', S(' ;\n}'), S(' ;\n}'), Alt(['', 'a', ';', '}'])), **R)
    add('try', T('try{', Alt(['', 'a', ';']), '}', Alt(['', ';', 'a', '\n', '}', 'else']), Alt(['', 'b', 'finally{}'])), **R)
    tgt = Alt(['f()', '0', 'this', 'a+b', '-a', 'new a', '"s"', 'a?b:c', '(a,b)', 'null', 'a++', '[0]', '({a:0})', '[...a,b]', '(function(){})'])
    add('target', T('x,', tgt, Alt(['=b', '+=b', '++', '--', '*=c'])), **R)
    add('target-for', T('for(', tgt, Alt([' in ', ' of ']), 'b);'), **R)
    add('target-pre', T(Alt(['++', '--']), tgt), **R)
    add('target-patt', T('[', Alt(['f()', '0', 'a', '...f()', '...b,c', '[0]', '-a']), ']=', Alt(['x', 'y'])), **R)
    add('target-obj', T('({', Alt(['a:0', 'a:f()', 'get a(){}', 'a(){}', 'a:b', 'a:[0]', 'set a(v){}']), Alt(['', ',b', ',c:1']), '}=x)'), **R)
    words = Alt(['implements', 'interface', 'let', 'package', 'private', 'protected', 'public', 'static', 'yield', 'eval', 'arguments', 'await', 'a'])
    for i, u in enumerate(['%s', 'var %s', 'function %s(){}', 'function f(%s){}', 'a=function %s(){}', '%s:;', '({%s})', 'try{}catch(%s){}', 'for(var %s in a);', 'f(%s)', '({set a(%s){}})', 'const %s=b', 'function f(...%s){}']):
        a, b = u.split('%s')
        add('word%d' % i, T(a, words, b), modes=(1, 2), **R)
    add('word-fun', T('function f(){"use strict";', Alt(['', 'var ', 'x=', '({']), words, Alt(['', '})', ';']), '}'), **R)
    goals = (3, 4, 5)
    add('late', T(Alt(['with(a)', 'var ', '']), Alt(['static', 'await', 'eval', 'b']), Alt([';', ';with(c);', ';var eval']),), modes=goals, **R)

# ---------------------------------------------------------------- where a rejected text is wrong
def _P14(add, many, deep):
    W = dict(what=WHERE)
    n = [0]
    for other in ('_P13', '_P12', '_P03', '_P04', '_P05', '_P06', '_P07', '_P08'):
        def again(label, t, modes=None, entry='h_par', what=TREE):
            n[0] += 1
            if label.startswith('late') or not deep and label.startswith(('resume', 'dropped', 'word-word', 'any-num', 'any-name', 'new2')):
                return
            add('%s-%s-%s' % (other[1:], label, n[0]), t, modes=((0, 2)[n[0] % 2],) if modes is None else modes, **W)
        globals()[other](again, lambda l, ts, **kw: [again('%s%d' % (l, i), t) for i, t in enumerate(ts)], deep)

# ---------------------------------------------------------------- where things stand
SPACED = '''a + b * c|- a + ! b|a ++ + -- b|a ? b : c|a = b += c|a , b , c|a . b [ c ] ( d , ... e ) . f|new a . b ( c ) . d|new a|new a ( b ) ( c )|[ a , , ... b ]|( { a : b , 'c' : d , 1 : e , f ( ) { } , * g ( ) { } , h , get i ( ) { } , set j ( k ) { } } )
( a ) + ( b )|( a ) . b|- ( a )|a = ( b )|( a , b ) ;|[ ( a ) ]|( { a : ( b ) } )|f ( ( a ) , ... ( b ) )|var a = ( b ) ;|( a )|( a ) [ b ] ;|new ( a ) ( b )|( a ) ? b : ( c )|( a ) ++
x = function a ( b , ... c ) { d }|function a ( ) { return }|function * a ( b , c ) { return b ; }|function a ( b ) { 'use strict' ; c }|x = function ( ) { new . target }
var a , b = c|var a ;|let a = b , c ;|const a = b , c = d|if ( a ) b ; else c|if ( a ) b|{ a ; b }|{ }|for ( ; ; ) ;|for ( a ; b ; c ) d ;|for ( var a = b , c ; ; ) d|for ( let a ; ; ) { }|for ( const a = b ; c ; ) d ;
for ( a in b ) c|for ( var a in b ) c ;|for ( let a of b ) c|for ( const a of b ) c ;|for ( a . b of c ) d|for ( var a = b in c ) d|for ( [ a , b ] of c ) d|while ( a ) b ;|do a ; while ( b )|do { a } while ( b ) c
a : for ( ; ; ) { break a ; continue a }|a : b : c|switch ( a ) { case b : c ; d ; default : case e : }|with ( a ) b ;|throw a|throw a ;|try { a } catch ( b ) { c } finally { d }|try { } catch ( a ) { } b|try { } finally { }|debugger|debugger ; ;
'a' ; 'b'|[ a , b ] = c , d|const a = ( b )|let a = ( b ) , c|null ; true ; this|/a/g . b|1.5 ; 0x1f ; 'a'|[ a , b ] = c|( { a , b : c } = d )|a ; b ; c|; ; a'''.replace('\n', '|').split('|')

def _P11(add, many, deep):
    R = dict(what=PLACE)
    gap = Alt([' ', '\n', '/*\n*/', '//\n']) if not deep else Alt([' ', '', '\n', '/*\n*/', '//\n', '\r\n', '\t'])
    for i, p in enumerate(SPACED):
        w = p.split(' ')
        if w[1:2] == ["'b'"] or w[:2] == ['a', 'b']:
            w[1:1] = ['']
        for k in range(0, len(w), 2):
            parts = [gap] if k == 0 else []
            for j, x in enumerate(w):
                parts.append(x)
                if j in (k, k + 1) or k + 2 >= len(w) and j == len(w) - 1:
                    parts.append(gap)
                else:
                    parts.append(' ')
            add('gap%d-%d' % (i, k), T(*parts), modes=(i % 2 * 3 if k % 4 else 0,), **R)
    for i, p in enumerate(ESTREE):
        add('program%d' % i, T(S(' \n'), p.replace(';', '; '), S(' \n')), **R)
    n = [0]
    for other in ('_P02', '_P03', '_P04', '_P05', '_P07'):
        def again(label, t, modes=(SCRIPT,), entry='h_par', what=TREE):
            n[0] += 1
            add('%s-%s-%s' % (other[1:], label, n[0]), t, modes=(0,), **R)
        globals()[other](again, lambda l, ts, **kw: [again('%s%d' % (l, i), t) for i, t in enumerate(ts)], False)

# ---------------------------------------------------------------- ESTree
ESTREE = """
a=1;b+=c,d  -a+b;!a;~b;+c;typeof_d;void_e;delete_f.g  ++a;b--;--c.d;e[f]++  a?b:c;  a||b&&c  a.b.c[d](e,...f)(g)  new_a;new_b(c,...d);new_c()
[a,,...b,c];[];[,]  ({a:b,'c':d,1:e,f(){},*g(){},h,get_i(){return_j},set_k(l){m}})  (function_a(b,c,...d){e});(function*(){})  x=function(){'use_strict';a}
function_f(){return}function*g(a,...b){return_c}  var_a,b=c;let_d=e,f;const_g=h;  if(a)b;else_c;if(d);  {a;{}}  for(;;);for(a;b;c)d  for(var_a=b,c;;);for(let_d;;);for(const_e=f;;);
for(a_in_b);for(var_c_in_d);for(let_e_in_f);for(const_g_in_h);for(var_i=j_in_k);  for(a_of_b);for(var_c_of_d);for(let_e_of_f);for(const_g_of_h);
for([a,,b]of_c);for({d,e:f}in_g);  do_a;while(b);while(c)d  a:for(;;){break_a;continue_a;break;continue}  switch(a){case_b:c;d;default:case_e:}switch(f){}  with(a)b  throw_a
try{a}catch(b){c}try{}finally{d}try{}catch(e){}finally{}  debugger;;  'a';'b';c;'d'  'use_strict'  null;true;false;this;/a/g;"b";  ({get_a(){'b';c},set_d(e){'f'},g(){'h';i},*j(){'use_strict';k}});(function(){'l'})  function_f(){return_new.target}
[a,[b],...c]=d;({e,f:g,'h':[i]})=j;k.l=m;n[o]=p  1.5;7;0x10;'';"a\\nb"  (a,b,c)
""".split()
ESTREE = [p.replace('_', ' ') for p in ESTREE]

def _E01(add, many, deep):
    def e(label, t, num=1):
        add(label, t, modes=(num, 0), entry='h_est')
    for i, p in enumerate(ESTREE):
        e('program%d' % i, T(p), num=1 + i % 2)
    for n in (0, 1, 2):
        e('numbers%d' % n, T('0;1;12345678;1.5;0x1f;1e3;({7:a});/a/g'), num=n)
        e('large%d' % n, T('9007199254740993;9223372036854774784;({4294967296:a,9007199254740993:b});2147483648;1e400'), num=n)
    e('huge', T('18446744073709549568;9223372036854775808'))
    e('binop', T(ID, ARITH, ID, ARITH, ID))
    e('assop', T(ID, Alt(['', '.b', '[b]']), ASSIGN, ID, ASSIGN, ID))
    e('unop', T(PREFIX, ID, Alt(['', '.b', '[b]', '+b'])))
    e('unops', T(PREFIX, PREFIX, ID, S('.;+'), ID))
    e('postfix', T(ID, Alt(['', '.b', '[b]']), Alt('++ -- ; +b')))
    e('names', T(ID, ID, ID, '.', ID, ID))
    e('property', T('({', Alt(['a', 'if', "'b'", '1', 'get', 'get c', 'set c', '*c']), Alt([':d', '(){}', '(e){}', ',f', '']), '})'))
    e('args', T(Alt(['f', 'new f', 'new new f', 'f.g', 'new f.g']), '(', Alt(['', 'a', '...a', 'a,b']), ')', Alt(['', '()', '.c', '[d]'])))
    e('array', T('[', Alt(['', 'a', ',', '...a']), Alt(['', ',', ',b', ',...b']), ']', Alt(['', '=c'])))
    e('pattern', T(Alt(['[', 'for([']), Alt(['a', '', 'b.c', '[d]', '{e}']), Alt([',', ',f', ',...g', '']), Alt([']=h', '] in h);', '] of h);'])))
    e('function', T(Alt(['function f', '(function', '(function f', 'function*f']), '(', Alt(['', 'a', 'a,b', '...a', 'a,...b']), '){', Alt(['', 'return', "'s'", "'s';a"]), '}', Alt(['', ')'])))
    e('declare', T(Alt(['var ', 'let ', 'const ']), ID, Alt(['', '=b', '=b,c', ',c', ',c=d'])))
    e('for', T('for(', Alt(['', 'a', 'var a', 'let a', 'const a=b', 'var a=b', 'a.b']), Alt([';', ' in ', ' of ']), Alt(['', 'c']), Alt(['', ';', ';d']), ');'))
    e('jump', T('a:', Alt(['for(;;)', 'while(b)', 'do ']), Alt(['break', 'continue']), Alt(['', ' a']), ';', Alt(['', 'while(b)'])))
    e('switch', T('switch(a){', Alt(['', 'case b:', 'default:']), Alt(['', 'c;']), Alt(['', 'case d:', 'default:']), '}'))
    e('try', T('try{', Alt(['', 'a']), '}', Alt(['', 'catch(b){}', 'catch(b){c}']), Alt(['', 'finally{}', 'finally{d}'])))
    e('nested', T(Alt(['if(a)', 'while(a)', 'with(a)', 'a:', '{', 'do ']), Alt(['b;', '{}', ';', 'debugger;', 'throw b;']), Alt(['', 'else c;', '}', 'while(d)'])))
    e('directives', T(Alt(["'a';", 'b;', '']), Alt(["'use strict';", 'c;', "'d'+e;"]), Alt(["'f'", 'g', ''])))
    e('strings', T("'", Alt(['a', '\\n', '\\x41', '"']), Alt(['b', '\\\\', '\\0']), "'", Alt([';a', '.b', ''])))
    e('regexps', T('/', S('ab.'), S('ac['), Alt(['', ']']), '/', Alt(['', 'g', 'gi', 'ym'])))
    e('string-statement', T(Alt(['switch(a){default:', 'switch(a){case b:', '{', 'if(a)', 'try{', 'try{}catch(b){', 'while(a)', 'a:']), Alt(["'c';", "'use strict';", "'c';'d';"]), Alt(['}', '', '}finally{}'])))
    e('grouped', T(ID, LEVELS, '(', ID, LEVELS, ID, ')'))
    e('grouped-left', T('(', ID, LEVELS, ID, ')', LEVELS, ID))
    e('grouped-any', T(Alt(['-(', 'new(', '(', '!(', 'f(', '[(', 'x=(', 'x?(', 'a,(', '({a:(']), Alt(['a,b', 'a=b', 'a?b:c', 'a||b', 'f()', 'f().g', '-a', 'a++', 'new f', 'new f.g()', 'function(){}', '{}']), Alt([')', ')()', ').c', ')[d]', ')+e', ')]', ')})', ')):i', '):i', ')?h:i', '),j']), Alt(['', ')'])))
    if deep:
        e('binops', T(ID, ARITH, ID, LEVELS, ID, LEVELS, ID))
        e('stmts', T(Alt(['a;', 'var b;', '{', 'if(c)', "'d';", 'e:']), Alt(['f;', 'let g;', ';', 'for(;;);']), Alt(['h', '}', 'function i(){}', 'else;'])))

def _E02(add, many, deep):
    for i, p in enumerate(ESTREE):
        if "catch(e){}finally" in p:
            p = 'try{a}catch(b){c}finally{d}'
        add('program%d' % i, T(p), modes=(min(2 * len(p), 100), 0), entry='h_mal')

# ---------------------------------------------------------------- trees without locations
def _R01(add, many, deep):
    U = dict(what=UNTRACK)
    for i, p in enumerate(ESTREE):
        add('node%d' % i, T(p), modes=(0, 3) if 'with' in p or 'in k' in p or 'f.g' in p else (0, 2, 3, 5) if deep else (0, (2, 3, 4, 5)[i % 4]), **U)
    for i, p in enumerate(PROGRAMS):
        add('program%d' % i, T(p), modes=(0, 2), **U)
    add('binary', T(ID, ARITH, ID, Alt('; ,c +d ?e:f'), S('\n;')), **U)
    add('unary', T(PREFIX, ID, Alt('.b [c] () ++ -- .d(e)')), **U)
    add('assign', T(ID, Alt(['', '.b', '[c]']), ASSIGN, ID), **U)
    add('optional', T('function f(){l:for(;;){', Alt(['return', 'break', 'continue', 'return a', 'break l', 'continue l', 'throw a', 'debugger', 'var a', 'let b', 'const c=d', 'a', 'do;while(b)']), S(';\n}'), Alt(['}}', '}'])), **U)
    add('for', T('for(', Alt(['', 'a', 'var a', 'let a', 'const a=b', 'var a=b', 'a.b']), Alt([';', ' in ', ' of ']), Alt(['', 'c']), Alt(['', ';', ';d']), ');'), **U)
    add('object', T('({', Alt(['a', 'if', "'b'", '1', 'get', 'get c', 'set c', '*c']), Alt([':d', '(){}', '(e){}', ',f', '']), '})'), **U)
    add('pattern', T(Alt(['[', 'for([']), Alt(['a', '', 'b.c', '[d]', '{e}']), Alt([',', ',f', ',...g', '']), Alt([']=h', '] in h);', '] of h);'])), **U)
    add('function', T(Alt(['function f', '(function', '(function f', 'function*f']), '(', Alt(['', 'a', 'a,b', '...a', 'a,...b']), '){', Alt(['', 'return', "'s'", "'s';a"]), '}', Alt(['', ')'])), **U)
    add('directive', T(Alt(["'a'", "'use strict'", 'b']), S(';\n'), Alt(["'c'", 'd', '']), S(';\n')), modes=(0, 1, 2, 3, 4, 5), **U)

OPERATORS = (['-', '+', '!', '~', 'typeof', 'void', 'delete'],
             ['==', '!=', '===', '!==', '<', '<=', '>', '>=', '<<', '>>', '>>>', '+', '-', '*', '/', '%', '|', '^', '&', 'in', 'instanceof'],
             ['||', '&&'], ['+=', '-=', '*=', '/=', '%=', '<<=', '>>=', '>>>=', '|=', '^=', '&='])
def _R02(add, many, deep):
    char = S('=<>!+-*/%|&^~?.,')
    for k, names in enumerate(OPERATORS):
        def op(label, t):
            add('%s-%s' % ('unary binary logical assigning'.split()[k], label), t, modes=(k,), entry='h_ops')
        op('empty', T(''))
        op('any1', T(FULL))
        op('any2', T(X, X))
        op('any3', T(char, char, char))
        op('any4', T(char, char, char, char))
        for w in sorted({w for l in OPERATORS for w in l}):
            op('is-' + w, T(w))
        for w in names:
            if len(w) > 2:
                for i in range(len(w)):
                    op('near-%s-%d' % (w, i), T(w[:i], X, w[i + 1:]))
            op('more-' + w, T(w, X))
            op('less-' + w, T(w[:-1]))
    add('precedence', [], modes=(), entry='h_prec')
