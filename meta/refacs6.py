"""group H/I: the bundled Forth library, rewritten word by word."""
from refacs import txt
CF = 'core.fth'


def w(g, old, new):
    txt(g, CF, old, new)


G = 'H'
w(G, ': 2* ( n -- n*2 )   2 * ;', ': 2* ( n -- n*2 )   dup + ;')
w(G, ': 2/ ( n -- n/2 )   2 / ;', ': 2/ ( n -- n/2 )   2 /mod nip ;')
w(G, ': space ( -- )   32 emit ;', ': space ( -- )   bl emit ;')
w(G, ': spaces ( n -- )   0 begin 2dup > while 1+ space repeat 2drop ;', ': spaces ( n -- )   begin dup 0> while 1- space repeat drop ;')
w(G, ': . ( n -- )   0 .r space ;', ': . ( n -- )   0 .r bl emit ;')
w(G, ': h. ( n -- )   base @ swap  hex . base ! ;', ': h. ( n -- )   base @ >r  hex .  r> base ! ;')
w(G, ': h.r ( n1 n2 -- )   base @ >r  hex .r  r> base ! ;', ': h.r ( n1 n2 -- )   base @ -rot  hex .r  base ! ;')
w(G, ': <= ( n1 n2 -- flag)   > invert ;', ': <= ( n1 n2 -- flag)   > 0= ;')
w(G, ': >= ( n1 n2 -- flag)   < invert ;', ': >= ( n1 n2 -- flag)   swap <= ;')
w(G, ': ?dup ( x -- 0 | x x )   dup if dup then ;', ': ?dup ( x -- 0 | x x )   dup 0<> if dup then ;')
w(G, ': tuck ( n1 n2 -- n2 n1 n2 )   swap over ;', ': tuck ( n1 n2 -- n2 n1 n2 )   dup -rot ;')
w(G, ': f, ( F: r -- )   here  1 floats allot  f! ;', ': f, ( F: r -- )   here  8 allot  f! ;')
w(G, ': 2@ ( a-addr -- x1 x2 )   dup cell+ @ swap @ ;', ': 2@ ( a-addr -- x1 x2 )   dup @ swap cell+ @ swap ;')
w(G, ': 2! ( x1 x2 a-addr -- )   swap over !  cell+ ! ;', ': 2! ( x1 x2 a-addr -- )   tuck !  cell+ ! ;')
w(G, ': +! ( n|u a-addr -- )   dup @ rot + swap ! ;', ': +! ( n|u a-addr -- )   swap over @ + swap ! ;')
w(G, ': 2, ( n1 n2 -- )   here  2 cells allot  2! ;', ': 2, ( n1 n2 -- )   , , ;')
w(G, ': max ( n1 n2 -- n3 )   2dup < if nip else drop then ;', ': max ( n1 n2 -- n3 )   2dup > if drop else nip then ;')
w(G, ': min ( n1 n2 -- n3 )   2dup < if drop else nip then ;', ': min ( n1 n2 -- n3 )   2dup > if swap then drop ;')
w(G, ': c, ( char -- )   here 1 chars allot c! ;', ': c, ( char -- )   here c!  1 allot ;')
w(G, '''    swap dup 0> if >r swap r>  0 do 2dup i + c! loop
    else drop then 2drop ;''', '''    over 0> if rot rot  0 do 2dup i + c! loop  2drop
    else 2drop drop then ;''')
w(G, ': count ( a -- a+1 n )  dup c@  swap 1 +  swap ;', ': count ( a -- a+1 n )  dup 1+  swap c@ ;')
w(G, 'dup >r - swap r> chars + swap ;', 'tuck - >r chars + r> ;')
w(G, ': append ( c-addr1 u c-addr2 - )  2>r  2r@ count + swap move  2r> dup >r c@ + r> c! ;',
  ': append ( c-addr1 u c-addr2 - )  2dup 2>r  count + swap move  2r> tuck c@ + swap c! ;')
w(G, ': on ( a -- )   true swap ! ;', ': on ( a -- )   -1 swap ! ;')
w(G, ': off ( a -- )   false swap ! ;', ': off ( a -- )   0 swap ! ;')
w(G, '''    swap postpone lit  ,  postpone lit  , ; immediate compile-only
: f''', '''    swap postpone literal  postpone literal ; immediate compile-only
: f''')
w(G, ': 2constant   create 2, does>  2@ ;', ': 2constant   create , ,  does>  dup cell+ @ swap @ ;')
w(G, ': 2variable   create  0 , 0 , ;', ': 2variable   variable 0 , ;')
w(G, ': +field ( n1 n2 -- n3 )   create over , + does> @ + ;', ': +field ( n1 n2 -- n3 )   create swap dup , + does> @ + ;')
w(G, ': pad ( -- addr )   here 512 + aligned ;', ': pad ( -- addr )   512 here + aligned ;')
w(G, ': bounds ( a n -- a+n a )   over + swap ;', ': bounds ( a n -- a+n a )   swap dup rot + swap ;')
w(G, '''  $7f and dup bl 127 within invert if drop [char] _ then ;''', '''  127 and dup bl < over 126 > or if drop [char] _ then ;''')
w(G, '''  chars bounds begin 2dup xor while count >char emit repeat 2drop ;''', '''  bounds begin 2dup <> while dup c@ >char emit 1+ repeat 2drop ;''')
w(G, '''    chars bounds begin 2dup xor while count 3 h.r repeat 2drop ;''', '''    over + begin 2dup <> while over c@ 3 h.r  swap 1+ swap repeat 2drop ;''')
w(G, ''': word ( char -- c-addr )   dup _skip  parse  here !token  here ;''', ''': word ( char -- c-addr )   dup _skip  parse  here dup >r !token  r> ;''')
w(G, ': xtime ( t0 xt -- )   2>r r@ execute 2r> (xtime) ;', ': xtime ( t0 xt -- )   swap >r dup >r execute r> r> swap (xtime) ;')
w(G, ': nod   begin pause again ;', ': nod   begin pause false until ;')
w(G, ': get ( a -- )   begin  dup @  while pause repeat me swap ! ;', ': get ( a -- )   begin  dup @ 0= not  while pause repeat me swap ! ;')
w(G, ': release ( a -- )   dup @ me = if 0 swap ! else drop then ;', ': release ( a -- )   dup @ me - if drop else off then ;')
w(G, ': ms ( n -- )   mtime  begin mtime over -  2 pick <  while pause repeat  2drop ;', ': ms ( n -- )   mtime  begin 2dup mtime swap -  >  while pause repeat  2drop ;')
w(G, '''    2 = if source-idx! source-id! else abort then ;''', '''    2 <> if abort else source-idx! source-id! then ;''')
w(G, '''      ( src-id src-idx count ) 1+ dup src-stack cell+ !
      ( src-id src-idx count+1 ) 2* cells src-stack +  2!''', '''      1+  1 src-stack cell+ +!
      cells 2* src-stack +  2!''')
w(G, '''    src-stack 2@ drop  dup 0 > if''', '''    src-stack cell+ @  dup 0> if''')
w(G, '''      ( count ) dup 1- src-stack cell+ !''', '''      -1 src-stack cell+ +!''')
w(G, '''      compiling? if compile-token
      ?stacks else interpret-token ?stacks then''', '''      compiling? if compile-token else interpret-token then ?stacks''')
w(G, '''      token-empty? not
    while''', '''      token-empty? 0=
    while''')
w(G, ''': include ( "path" -- )   32 word count included ;''', ''': include ( "path" -- )   bl word count included ;''')
w(G, '''    2dup  r/o open-file 0= if
        save-source''', '''    2dup  r/o open-file if abort else
        save-source''')
w(G, '''        source-id  restore-source  close-source
    else
        abort
    then''', '''        source-id  restore-source  close-source
    then''')
w(G, ''': \\\\ ( -- )   source-id   begin  dup load-line  while  drop  repeat  2drop ;''', ''': \\\\ ( -- )   begin  source-id load-line nip  0= until ;''')

G = 'I'
w(G, ': spaces ( n -- )   0 begin 2dup > while 1+ space repeat 2drop ;', ': spaces ( n -- )   0 begin 2dup <= 0= while 1+ space repeat 2drop ;')
w(G, ': <= ( n1 n2 -- flag)   > invert ;\n', '')
w(G, ': space ( -- )   32 emit ;', ': <= ( n1 n2 -- flag)   > not ;\n: space ( -- )   32 emit ;')
w(G, ': decimal   10 base ! ;', ': set-base ( n -- )   base ! ;\n: decimal   10 set-base ;')
w(G, ': hex   16 base ! ;', ': hex   $10 set-base ;')
w(G, ': h.r ( n1 n2 -- )   base @ >r  hex .r  r> base ! ;', ': save-base ( -- n )   base @ hex ;\n: h.r ( n1 n2 -- )   save-base >r  .r  r> set-base ;')
w(G, ': ?dup ( x -- 0 | x x )   dup if dup then ;', ': ?dup ( x -- 0 | x x )   dup if dup else then ;')
w(G, ': 2@ ( a-addr -- x1 x2 )   dup cell+ @ swap @ ;', ': 2@ ( a-addr -- x1 x2 )   dup >r cell+ @ r> @ ;')
w(G, ': 2! ( x1 x2 a-addr -- )   swap over !  cell+ ! ;', ': 2! ( x1 x2 a-addr -- )   dup >r ! r> 8 + ! ;')
w(G, ': +! ( n|u a-addr -- )   dup @ rot + swap ! ;', ': +! ( n|u a-addr -- )   >r r@ @ + r> ! ;')
w(G, ': max ( n1 n2 -- n3 )   2dup < if nip else drop then ;', ': max ( n1 n2 -- n3 )   2dup < if swap then drop ;')
w(G, ': c, ( char -- )   here 1 chars allot c! ;', ': c, ( char -- )   here c! 1 chars allot ;')
w(G, '''    swap dup 0> if >r swap r>  0 do 2dup i + c! loop
    else drop then 2drop ;''', '''    swap 0 max rot swap  0 ?do 2dup i + c! loop  2drop ;''')
w(G, ': count ( a -- a+1 n )  dup c@  swap 1 +  swap ;', ': count ( a -- a+1 n )  dup char+  swap c@ ;')
w(G, 'dup >r - swap r> chars + swap ;', 'rot over + -rot - ;')
w(G, ': append ( c-addr1 u c-addr2 - )  2>r  2r@ count + swap move  2r> dup >r c@ + r> c! ;',
  ': append ( c-addr1 u c-addr2 - )  over over >r >r  count + swap move  r> r@ c@ + r> c! ;')
w(G, ': literal ( n -- )   postpone lit  , ; immediate compile-only', ": literal ( n -- )   ['] lit ,  , ; immediate compile-only")
w(G, ': 2variable   create  0 , 0 , ;', ': 2variable   create  2 cells allot  ;' if False else ': 2variable   create  0 dup 2, ;')
w(G, ': fvariable   create falign 0e f, does> faligned ;', ': fvariable   create falign 0.0e0 f, does> faligned ;')
w(G, ': defer   create [\'] noop ,  does> @ execute ;', ': defer   variable [\'] noop here 1 cells - !  does> @ execute ;')
w(G, ': defer@ ( xt1 -- xt2 )   >body @ ;\n: defer! ( xt2 xt1 -- )   >body ! ;', ': >deferred ( xt -- a )   >body ;\n: defer@ ( xt1 -- xt2 )   >deferred @ ;\n: defer! ( xt2 xt1 -- )   >deferred ! ;')
w(G, '''  $7f and dup bl 127 within invert if drop [char] _ then ;''', '''  $7f and dup 32 127 within if exit then drop [char] _ ;''')
w(G, '''  chars bounds begin 2dup xor while count >char emit repeat 2drop ;''', '''  bounds ?do i c@ >char emit loop ;''')
w(G, '''    chars bounds begin 2dup xor while count 3 h.r repeat 2drop ;''', '''    chars bounds begin 2dup = invert while count 3 h.r repeat 2drop ;''')
w(G, '''    begin  2dup swap <  while
      dup 4 h.r  [char] : emit  ( address )
      space  8 2dup _dump
      space space  2dup _type
      chars +  cr
    repeat  2drop ;''', '''    begin  2dup >  while
      dup 4 h.r  58 emit
      space  dup 8 _dump
      2 spaces  dup 8 _type
      8 +  cr
    repeat  2drop ;''')
w(G, ''': get ( a -- )   begin  dup @  while pause repeat me swap ! ;''', ''': get ( a -- )   begin  dup @ 0= if me swap ! exit then pause again ;''')
w(G, ''': release ( a -- )   dup @ me = if 0 swap ! else drop then ;''', ''': release ( a -- )   dup @ me <> if drop exit then 0 swap ! ;''')
w(G, ''': ms ( n -- )   mtime  begin mtime over -  2 pick <  while pause repeat  2drop ;''', ''': elapsed ( t -- n )   mtime swap - ;
: ms ( n -- )   mtime  begin dup elapsed  2 pick <  while pause repeat  2drop ;''')
w(G, ''': stop   me suspend pause ;''', ''': sleep-me ( -- )   me suspend ;
: stop   sleep-me pause ;''')
w(G, '''    2 = if source-idx! source-id! else abort then ;''', '''    2 - if abort then source-idx! source-id! ;''')
w(G, '''create src-stack 16 , 0 , 16 2* cells allot''', '''create src-stack 16 , 0 , 256 allot''')
w(G, '''    source-id source-idx
    src-stack 2@ over > if
      ( src-id src-idx count ) 1+ dup src-stack cell+ !
      ( src-id src-idx count+1 ) 2* cells src-stack +  2!
    else abort then ;''', '''    src-stack 2@ > 0= if abort then
    1 src-stack cell+ +!
    source-id source-idx  src-stack cell+ @ 2* cells src-stack +  2! ;''' if False else '''    source-id source-idx
    src-stack dup @ swap cell+ @ dup rot < if
      1+ dup src-stack cell+ !
      4 lshift src-stack +  2!
    else abort then ;''')
w(G, '''      compiling? if compile-token
      ?stacks else interpret-token ?stacks then
    repeat ;''', '''      compiling? not if interpret-token else compile-token then
      ?stacks
    repeat ;''')
w(G, '''    begin
      source-id load-line
    while
      drop
      0 source-idx!
      evaluate-input  flush-output
      1 load-line# +!
    repeat  drop ;''', '''    begin
      source-id load-line nip
    while
      0 source-idx!
      evaluate-input  flush-output
      load-line# @ 1+ load-line# !
    repeat ;''')
w(G, ''': included ( c-addr u -- )
    2dup  r/o open-file 0= if
        save-source
        ( c-addr u file-id ) open-source source-id!
        postpone [''', ''': push-source ( c-addr u file-id -- )
    save-source  open-source source-id! ;
: included ( c-addr u -- )
    2dup  r/o open-file 0= if
        push-source
        postpone [''')
w(G, ''': \\\\ ( -- )   source-id   begin  dup load-line  while  drop  repeat  2drop ;''', ''': \\\\ ( -- )   source-id   begin  dup load-line nip  0= until  drop ;''')
