"""What each property's check explores: harness entries and input templates."""
import re
FIRST_SECS, PARTS = 5, 16
QUICK_SECS, THOROUGH_SECS = 240, 3000
LEGEND = ('¤ any ASCII byte; ⑵⑶⑷ any 2/3/4-byte character; ②③ the same, enumerated by blocks of 64; Ⓤ U+2000..203F; Ⓒ U+0080..00BF; '
          'Ⓚ grammar alphabet a0"\\/-*{}()=;#r LF SP; Ⓝ number alphabet 0179_.eE+-xobaFg; Ⓦ blanks, terminators, comment characters; '
          'Ⓔ escape alphabet; Ⓛ a-z; Ⓓ 0-9; Ⓗ hexadecimal and neighbours; Ⓟ printable except quote and backslash; Ⓑ base64 alphabet and '
          'neighbours; Ⓘ ASCII identifier character; Ⓡ CR/LF; Ⓢ + - 0; Ⓐ comment alphabet; ⟦a|b⟧ either alternative (symbolic choice); '
          '§ offset mark; everything else is literal text')
OUTSIDE = 'texts that are not instances of the listed templates: longer symbolic regions, deeper nesting, more symbolic fragments at once'
ASSUMPTIONS = [
    'the code checked is the monomorphised code rustc emits for the harness at opt-level s with overflow checks; the model of memory is flat and bounds-checked per allocation region by fault detection, not by provenance',
    'malloc never fails; HashMap keys come from a fixed seed; no threads',
    'the oracle is the hand-written reference in harness/src (KDL 1.0 grammar and knuffel documentation)',
]


def unique(*ls):
    return list(dict.fromkeys(x for l in ls for x in l))


# ---------------------------------------------------------------- document structure
SMALL = ['', '¤', '¤¤', '¤¤¤']
CONTEXT = [  # any three ASCII characters in each position of the grammar
    'n ¤¤¤', '¤¤n¤', 'n(¤¤)', '(¤¤)n', '(¤)¤¤', 'n (¤)¤', 'n¤{¤}', 'n {¤a¤}', 'n { a¤¤}', 'n {¤}¤¤', 'n {}¤¤', 'n a=¤¤', 'n ¤=¤', 'n ¤¤=1',
    'n 1 ¤¤ 2', '¤a¤b', 'a ¤;¤b', '/-¤n 1¤m', 'n /-¤1¤2', 'n /-¤{a\n}¤m', 'n¤1 {a¤\n}', 'n k=(¤)¤¤', 'n k=(¤¤)1',
]
TOKENS = [
    r'n (a)⟦1|"x"|r"y"|null|true|-0x1f|1.5|b|k=1|k=(t)"s"⟧' '⟦ |\n|;| {}|{}|//x|/*y*/|\\\n⟧' r'⟦1|"x"|k=2|k=3|null|}⟧',
    '⟦a|"b"|r"c"|(t)d|/-e⟧ ⟦{|/-{| { |1 {⟧⟦f|f;|f\n|f 1\n|f k="v"; g|/-f\n| ⟧⟦}|}\n|};|} h|}h⟧',
    '⟦|/-|/- |(t)⟧a ⟦|/-|/- ⟧⟦1|k=2|"s"|(u)3⟧ ⟦|/-|/- ⟧⟦{}|{b;}|{b;c;}|{\n b 1 {\n c\n}\n}|4⟧⟦\n|;| //x\n|⟧⟦|d|/-d 5;|e {f;}⟧',
    'a 1 2 3 4 5 6 7 8 ⟦9|k=9|"9"|/-9|nine⟧ ⟦10|k=10|/-k=10|(t)10⟧ k=11 {\n b {\n c {\n d ⟦12|{}|{e;}⟧\n }\n }\n}\n⟦|f|/-f⟧',
    '⟦a|b⟧;⟦a|b⟧ {⟦a|b⟧;⟦a|b⟧ ⟦1|2⟧ {⟦a|b⟧;};⟦a|b⟧;};⟦a|b⟧;⟦a|b⟧',
    'a {b {c {d {e {f {g ⟦1|x=1|{}|{h}|{h;}⟧;};};};};};}⟦|;|}|{⟧',
    'n 1 {a;}⟦ 2| k=1| {b;}| /-{b;}|/-{b;}| /-2|;2|\n2⟧',
    '⟦|\n|\n\n|;|;;| ;|//x\n|/*x*/|\ufeff⟧a⟦|\n|\n\n|;|;;| ;|//x\n|/*x*/⟧b',
    'a k=⟦1|"s"|r#"t"#|null|true|false|(t)1|(t)null|x|-1|0x1F|1.5e3⟧⟦ l=2|l=2| {l=2}|;⟧',
    'a⟦=|(|)|/|,|<|>|[|]|\\|{|}⟧⟦1|b| |⟧',
    'a ⟦b|"b"|r"b"|null|1|(t)b|(t)"b"⟧=⟦1|"s"|(t)1|(t)(u)1|=1|⟧',
    '⟦(t)|("t")|(r"t")|(1)|(null)|()|( t)|(t )|(t) ⟧n ⟦(t)|("t")|(r"t")|(1)|(null)|()|( t)|(t) ⟧1',
]
STRUCT_T = ['¤¤¤¤', 'n ¤¤¤¤', 'n {a¤¤¤}', 'n {¤¤¤}', 'ⓀⓀⓀⓀⓀ', 'n ⓀⓀⓀⓀⓀ', 'a {ⓀⓀⓀⓀ}', '(a)ⓀⓀⓀⓀ', 'n 1ⓀⓀⓀⓀ 2', 'n "a"ⓀⓀⓀⓀ', 'n k=ⓀⓀⓀⓀ', '/-ⓀⓀⓀⓀ']

# ---------------------------------------------------------------- blanks and comments
BLANKS = [
    'a¤¤1', 'a ¤¤1', 'a\\¤¤1', 'a \\¤\n1', 'a \\ ¤¤1', 'a\\//¤\n1', 'a\\/*¤*/\n1', 'a /*¤¤*/ 1¤', 'a /*¤/*¤*/¤*/¤', 'a/*¤¤¤*/1', '/*¤¤¤*/a', '//¤¤\na', 'a //¤¤¤', 'a 1//¤¤\nb',
    'a /-¤1', 'a /-¤k=1 2', 'a /-¤{b;}', 'a {b;}/-¤{c;}', '/-¤a', '/-¤a;b', '/-a¤b', 'a /-"¤" 1', 'a /- \\\n¤1', 'a/-¤', 'a 1/-¤2', 'a {/-¤b;c;}',
    'a⑵1', 'a⑶1', 'a ⑶1', 'a\\⑶1', 'a 1⑶b', 'a 1⑵b', '⑶a', '⑵a', 'a {⑶b;}', 'a //⑶b', 'a /*⑶*/1', '/-⑶a', 'a /-⑶1', 'a 1\\⑶',
    'aⓌⓌⓌ1', 'a 1ⓌⓌⓌ', 'ⓌⓌⓌa', 'a {ⓌⓌⓌb;}', 'a {b;}ⓌⓌⓌc', 'a /*ⒶⒶⒶⒶ*/1', '/*ⒶⒶⒶ*/ⒶⒶ',
    'a ⟦/-|/- |/-/*x*/|/-\\\n⟧⟦1|k=1|"x"|{b;}|(t)2|k=(t)3⟧⟦| 4| {c;}| k=5⟧⟦|\n|;d⟧',
    '⟦/-|/- |/-/*x*/|/-\\\n|/-//x\n⟧⟦a|(t)a|"a"|a 1|a k=2|a {b;}|a {b {c;};}⟧⟦|\n|;⟧d ⟦1|/-1 2⟧',
    '⟦|/*x*/|//x\n|/-x\n| |\t|\r\n⟧a⟦ |/*x*/|\\\n| \\ //y\n |\t⟧1⟦| |/*x*/|\\\n⟧⟦\n|\r\n|\r|;|//z\n|⟧⟦|/*x*/|/-y;|\n\n⟧b',
    'a⟦/*/**/*/|/*/*/*x*/*/*/|/**/|/***/|/*/*/|/* * / */|/*//*/|/*"*/|/*\n*/⟧1',
    'a ⟦/-/-|/-/-1|/-1 /-2|/-{} /-{}|/-{} {}|{} /-{}|/-{}/-|/-k=|/-k=1/-l=2⟧ 3',
    'a {⟦|\n|;|/-|//x\n|/*x*/| ⟧b⟦\n|;|//x\n|/*x*/;|⟧⟦|\n|/-c;|//x\n|/*x*/⟧}⟦\n|;| //x\n|/*x*/|⟧d',
    'a⟦\t| |\xa0|\u1680|\u2000|\u200a|\u202f|\u205f|\u3000|\ufeff|\u200b|\u180e|\x0b⟧1',
    'a 1⟦\n|\r|\r\n|\x0c|\x85|\u2028|\u2029|\x0b|\n\r|\x1c|\x00⟧b 2',
]
S1 = '⟦| |/*x*/|\\\n|\\ //y\n⟧'          # optional node space
L1 = '⟦|\n|//x\n|/*x*/|/-z;⟧'             # optional line space
BLANKS += [
    'a⟦ |/*x*/|\\\n⟧' + S1 + S1 + '1' + S1 + ';b', 'a \\⟦| |/*x*/⟧⟦| |/*y*/⟧⟦| |/**/⟧⟦\n|\r\n|//c\n|//c⟧⟦| |\t⟧1', 'a' + S1 + S1 + '{b;}' + S1 + S1 + '⟦;|\n|⟧c', 'a 1' + S1 + S1 + '/-' + S1 + S1 + '⟦2|{b;}|k=2⟧⟦|;⟧',
    L1 + L1 + L1 + 'a' + L1 + L1, 'a {' + L1 + L1 + 'b;' + L1 + L1 + '}', '/-' + S1 + S1 + 'a' + S1 + '1' + S1 + ';b', '(t)a' + S1 + '(u)1' + S1 + 'k=2' + S1 + '{}' + S1,
]
BLANKS_T = ['a¤¤¤1', 'a \\¤¤¤1', 'a /*ⒶⒶⒶⒶⒶⒶ*/1', '/*ⒶⒶⒶⒶⒶⒶ', 'a 1⑶⑶b', 'a⑶⑵1', 'a 1ⓌⓌⓌⓌ', 'aⓌⓌⓌⓌ1', 'ⓌⓌⓌⓌa', 'a /-ⓌⓌⓌ1', '/-ⓌⓌⓌa', 'a {b;}/-ⓌⓌⓌ{c;}', 'a\\ⓌⓌⓌⓌ1', 'a 1ⓌⓌⓌⓌⓌ']

# ---------------------------------------------------------------- strings
STRINGS = [
    'n "¤¤¤"', r'n "\¤"', r'n "\¤¤"', r'n "\¤¤¤"', r'n "¤\¤"', r'n "\u¤"', r'n "\u¤¤"', r'n "\u{¤}"', r'n "\u{¤¤}"', r'n "\u{¤¤¤}"', r'n "\u{ⒽⒽⒽⒽ}"', r'n "\u{10ⒽⒽⒽⒽ}"', r'n "\u{DⒽⒽⒽ}"', r'n "\u{0ⒽⒽⒽⒽⒽ}"', r'n "\u{1ⒽⒽⒽⒽⒽ}"', r'n "\u{ⒽⒽ1234Ⓗ}"', r'n "\u{00000Ⓗ}"', r'n "\u{000041Ⓗ}"',
    r'n "a\u{4Ⓗ}b"', r'n "\⑶"', r'n "\u{⑶}"', 'n "⑵⑶⑷"', 'n "a⑷"', 'n r"¤¤¤"', 'n r#"¤¤¤"#', 'n r##"¤"#¤"##', 'n r##"¤¤¤"##', 'n r¤"¤"¤', 'n r#"¤"¤¤', 'n r##"a"#"¤"##¤', 'n r###"a"##¤¤###', 'n r"⑶\\"', 'n r#"⑵"⑶"#',
    '"¤¤"', '"¤" "¤"', 'r"¤¤"', 'r#"¤¤"#', r'"\¤¤"', 'n "¤"=1', r'n "\¤"=1', 'n r"¤"="x"', 'n r#"¤"#=r#"¤"#', 'n ("¤")1', '("¤")n', '(r"¤")n', 'n k="¤¤"', 'n k=r"¤¤"', r'n k="\¤"', 'n "¤" r"¤" k="¤"',
    r'n "⟦\"|\\|\/|\b|\f|\n|\r|\t|\a|\0|\x|\v|\s|\u|\U|\e|\|\{|\}|\'|\N|\B⟧⟦|a|"|{41}|41|{|}|{}⟧"',
    r'n "⟦a|\n|\u{e9}|é|\t|\\|\"⟧⟦a|\n|\u{1F600}|😀|\r|\/|#⟧⟦a|\n|\u{0}|\u{7f}|\u{7FF}|\u{800}|\u{FFFF}|\u{10000}|\u{10FFFF}|\u{110000}|\u{d800}|\u{dfff}|\u{D7FF}|\u{E000}|\u{0010FFFF}|\u{000041}⟧"',
    'n ⟦r|r#|r##|r###|R|rr|#⟧"⟦a|"|"#|"##|\\|\\"|\n|⟧⟦a|"|"#|"##|\\⟧"⟦|#|##|###|####⟧',
    'n "⟦|a|\n|\r\n|\t|é|{|}|//|/*|;⟧" ⟦"x|x"|"x"|""|"""|"" ""⟧',
    'n "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa¤bbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbb"',
    'n r#####"a"####¤"#####', 'n r########"¤########"########',
    r'n "ⒺⒺⒺ"', r'n "\ⒺⒺⒺⒺ"', r'n "\u{ⒺⒺⒺ"',
]
STRINGS_T = [r'n "\u{ⒽⒽⒽⒽⒽ}"', r'n "\u{ⒽⒽⒽⒽⒽⒽ}"', r'n "\u{ⒽⒽⒽⒽⒽⒽⒽ}"', 'n "¤¤¤¤"', r'n "\¤¤¤¤"', 'n r#"¤¤¤¤"#', 'n r¤¤"¤"¤¤', 'n "⑶⑶⑶⑷"', r'n "ⒺⒺⒺⒺⒺ"', 'n "¤¤" "¤¤"', r'n "\u{¤¤¤¤}"', '"¤¤¤¤', 'r¤¤¤¤']

# ---------------------------------------------------------------- numbers
NUMBERS = [
    'n ¤¤', 'n 1¤¤', 'n -¤¤', 'n +¤¤', 'n 0¤¤', 'n 0x¤¤', 'n 0b¤¤', 'n 0o¤¤', 'n -0x¤¤', 'n 1.¤¤', 'n 1e¤¤', 'n 1.5e¤', 'n 1_¤¤', 'n 0x_¤', 'n 0x1_¤', 'n .¤', 'n 1¤2', 'n 1.¤.2', 'n 1e-¤', 'n 1E¤¤',
    'n ⓃⓃⓃⓃ', 'n -ⓃⓃⓃ', 'n 0xⓃⓃⓃ', 'n 0bⓃⓃⓃ', 'n 0oⓃⓃⓃ', 'n 1.ⓃⓃⓃ', 'n 1eⓃⓃⓃ', 'n 0ⓃⓃⓃ', 'n k=ⓃⓃⓃ', 'n (t)ⓃⓃⓃ', 'n 1.0ⓃⓃⓃ', 'n 12ⓃⓃⓃ',
    'n 9223372036854775ⒹⒹⒹ', 'n -9223372036854775ⒹⒹⒹ', 'n +9223372036854775ⒹⒹⒹ', 'n 1844674407370955ⒹⒹⒹⒹ', 'n -1844674407370955ⒹⒹⒹⒹ', 'n 9_223_372_036_854_775_8ⒹⒹ',
    'n 0xffffffffffffffⒽⒽ', 'n 0x7fffffffffffffⒽⒽ', 'n -0x80000000000000ⒽⒽ', 'n -0x8000_0000_0000_00ⒽⒽ', 'n 0xⒽffffffffffffffⒽ', 'n 0x1ⒽffffffffffffffⒽ',
    'n 0o17777777777777777777ⒹⒹ', 'n -0o7777777777777777777ⒹⒹⒹ', 'n 0b111111111111111111111111111111111111111111111111111111111111111ⒹⒹ', 'n -0b10000000000000000000000000000000000000000000000000000000000000ⒹⒹ',
    'n 000000000000000000000000000000000000000000000000000000001Ⓓ', 'n 0x00000000000000000000000000000000Ⓗ', 'n 99999999999999999999999999999999999999Ⓓ',
    'n ⟦|+|-⟧⟦0|1|00|01|10|1_0|1__0|_1|1_|0_1|0x1|0X1|0xg|0x|0xA_f|0xaF|0b101|0b2|0b1_0|0o17|0o8|0O1|0B1⟧⟦|.0|.5|.|._5|.5_|.5_0|.5.5|e|e5|E5|e+5|E-5|e5_0|e_5|e5.5|.5e5|.5e|.0e-1⟧⟦| 1|a|_|=1|=|;|{}⟧',
    '⟦1|-1|+1|1.5|0x1|-a|+a|-|+|--|++|-_|-1a|+.5|-.5|.5⟧ ⟦1|-1|-|+|a-1|a+1|-a=1|-1=1|-=1|+=1⟧',
]
NUMBERS_T = ['n ⓃⓃⓃⓃⓃ', 'n -ⓃⓃⓃⓃ', 'n 0xⓃⓃⓃⓃ', 'n 0oⓃⓃⓃⓃ', 'n 0bⓃⓃⓃⓃ', 'n 1.ⓃⓃⓃⓃ', 'n 1eⓃⓃⓃⓃ', 'n 1¤¤¤', 'n 0¤¤¤', 'n -¤¤¤', 'n 922337203685477ⒹⒹⒹⒹ', 'n 0x7ffffffffffffⒽⒽⒽ', 'n 184467440737095ⒹⒹⒹⒹⒹ', 'n -922337203685477ⒹⒹⒹⒹ']

# ---------------------------------------------------------------- identifiers
IDENTS = [
    '¤', '¤¤', '¤¤¤', '⑵', '⑶', '⑷', 'a⑵', 'a⑶', 'a⑷', 'a⑶b', 'a¤b', 'a¤¤b', '⑶⑵', 'n ⑵=1', 'n ⑶=1', 'n ⑷=1', 'n a⑶=1', 'n a⑵=1', 'n ¤¤=1', 'n ¤⑵=1', '(⑵)n', '(⑶)n', '(⑷)n', '(a⑶)n', '(¤¤)n', 'n (⑶)1', 'n (a⑵)1', 'n (¤¤)1', 'n k=(¤¤)1', 'n k=(⑶)1',
    '+¤', '-¤', '+¤¤', '-¤¤', 'n +¤=1', 'n -¤=1', '(-¤)n', 'n (+¤)1', '+⑵', '-⑶', 'ⓈⓈ¤', 'ⓈⓈⓈⓈ', 'n ⓈⓈⓈ=1',
    'true¤', 'false¤', 'null¤', '¤true', 'n true¤=1', 'n null¤=1', 'n false¤=1', 'n true¤', 'n null¤', 'n false¤', '(true¤)n', '(null¤)n', '(false¤)n', 'n (null¤)1', 'tru¤', 'nul¤', 'fals¤', 'n tru¤=1', 'n nul¤=1', 'n fals¤=1', 'n true⑵', 'n null⑶=1', 'true⑶', '¤rue', '¤ull', 'n ¤alse=1', 'n ¤rue', 'n ¤ull', 'n ¤alse', 'TRU¤', 'n (tru¤)true',
    'r¤', 'r¤¤', 'r#¤', 'n r¤=1', 'n r#¤=1', 'rr"¤', '(r¤)n', 'r⑶', 'n r⑵=1',
    '⟦a|-|+|.|_|~|@|$|r|é|中|!|#|:|0|9⟧⟦|0|9|-|+|.|!|#|"|=|/|\\|,|<|>|[|]|(|)|{|}|;|é|\u2028|\ufeff|\u3000|\x7f|\x80⟧⟦|1|a⟧ ⟦|1⟧',
    'n ⟦a|-|+|.|_|~|@|$|r|é|中|!|#|:|0|9⟧⟦|0|9|-|+|.|!|#|/|\\|,|<|>|[|]|é|\u2028|\ufeff|\x7f⟧=1',
    '⟦true|false|null|True|NULL|truefalse|inf|nan|-true|+null|r|r#|rtrue|true1|null-|false.⟧⟦ 1|=1|⟧',
    'aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa¤aaaaaaaaaaaaaaaaaaaaaaa 1',
]
IDENTS_T = ['¤¤¤¤', '⑶⑶', '⑵⑷⑶', 'n ¤¤¤=1', '(¤¤¤)n', 'n (¤¤¤)1', '+¤¤¤', 'true¤¤', 'n true¤¤=1', 'n null¤¤', 'r¤¤¤', 'n ⑶⑶=1', 'ⓈⓈⓈ¤¤']

# ---------------------------------------------------------------- duplicate properties, order
DUPS = [
    'n a=1 ¤=2', 'n ¤=1 ¤=2', 'n ¤=1 ¤=2 ¤=3', 'n ¤¤=1 ab=2', 'n a=1 a=2 ¤=3', 'n a=1 ¤=2 a=3', 'n ¤=1 2 ¤=3 4', 'n "¤"=1 ¤=2', 'n r"¤"=1 "¤"=2 ¤=3', r'n "\u{6Ⓗ}"=1 ¤=2', 'n ⑵=1 ⑵=2', 'n ⑶=1 a⑶=2', 'n a⑵=1 b=2 a⑵=3',
    'n Ⓓ Ⓓ Ⓓ Ⓓ', 'n Ⓓ Ⓛ=Ⓓ Ⓓ Ⓛ=Ⓓ Ⓓ', 'n Ⓛ=Ⓓ Ⓛ=Ⓓ Ⓛ=Ⓓ', 'n ⓁⓁ=1 ⓁⓁ=2', 'n "Ⓟ"=1 "Ⓟ"=2', 'n ""=1 ""=2 "Ⓟ"=3', 'n Ⓛ=1 Ⓛ=2 Ⓛ=3 Ⓛ=4',
    'n ⟦a|b|"a"|r"a"⟧=1 ⟦a|b|"a"|/-a⟧=2 ⟦a|b|/-"a"⟧=(t)3 ⟦a|b⟧="4" ⟦a|b|/-a⟧=null',
    'n ⟦1|a=1|/-1|/-a=1⟧ ⟦2|a=2|/-2|/-a=2⟧ ⟦3|b=3|/-3|/-a=3⟧ ⟦4|a=4|/-4|/-a=4⟧ ⟦5|b=5|/-5⟧ {c a=6 ⟦a|b⟧=7;}',
    'n ⟦c|b|a⟧=1 ⟦c|b|a⟧=2 ⟦c|b|a⟧=3 ⟦c|b|a⟧=4 ⟦c|b|a⟧=5 ⟦c|b|a⟧=6',
    'n k1=1 k2=2 k3=3 k4=4 k5=5 k6=6 k7=7 k8=8 k9=9 k10=10 k11=11 k12=12 k13=13 k⟦1|5|7|12|13|14⟧=14 k⟦1|6|9|14⟧=15',
    'n 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 ⟦21|k=21|/-21⟧ ⟦22|/-22⟧ 23',
    'n a=1 A=2 ⟦a|A|á|ä|a_|_a|a-|a.⟧=3', 'n a=⟦1|"x"|null|(t)1⟧ a=⟦1|"x"|null|(u)2|true⟧ a=⟦1|"x"|null|r"z"⟧',
]
DUPS_T = ['n ¤¤=1 ¤¤=2', 'n Ⓛ=1 Ⓛ=2 Ⓛ=3 Ⓛ=4 Ⓛ=5', 'n ⑶=1 ⑶=2', 'n ¤=1 ¤=2 ¤=3 ¤=4', 'n "ⓅⓅ"=1 "ⓅⓅ"=2', 'n ⓁⓁⓁ=1 ⓁⓁⓁ=2', 'n ¤ ¤=¤ ¤']

# ---------------------------------------------------------------- spans
SPANS = unique(SMALL, CONTEXT, TOKENS, [
    '⑵⑶⑷ 1 k=2', '⑷ "⑷" ⑶="⑵" {⑶;}', '(⑵)⑶ (⑷)"⑵"', 'n "⑷" (a)2;⑶ 3', '/*⑷*/a /*⑶*/1', '//⑷\na 1', '/-⑶ 1;b 2', 'n /-⑵=1 c=2', 'é {中 {😀 ¤;}\n}\nb', 'n r#"⑶"# 1', r'n "\u{1f600}⑶" k="\n"', 'a\r\nb¤ 1', 'a 1¤ 2 /*é*/ b=3 {c;}\r\n',
    '\ufeffa 1', '\ufeff(t)⑷ 1', 'a \\\n¤1 {b;}', 'a⟦\n|\r\n|;|//é\n| ;⟧⟦b|(t)b|/-b;c⟧ ⟦1|"é"|k=1|"é"=(é)"é"⟧ ⟦{c;}|/-{c;} |{é 1;}⟧⟦\n|;|⟧',
])
SPANS_T = unique(STRUCT_T, BLANKS, STRINGS, NUMBERS, ['¤⑶¤⑷¤', '⑵¤¤{¤}'])
LINES = unique(SMALL, [c for c in CONTEXT], TOKENS[:6], [
    'aⓇⓇb 1', 'ⓇⓇⓇa', 'a 1ⓇⓇⓇb', 'a "ⓇⓇ" k=2Ⓡb', 'a "ⓇaⓇ" 1;b', 'a r"ⓇⓇ" 1', '/*ⓇⓇ*/a 1', '//xⓇⓇa 1', 'a {ⓇbⓇ}Ⓡc', 'a \\ⓇⓇ1', 'Ⓤa 1', 'aⓊ1', 'a "Ⓤ" 1', 'a 1Ⓤb', 'a /*Ⓤ*/1', 'a 1 //Ⓤb', 'a Ⓤ=1', 'Ⓒa 1', 'aⒸ1', 'a "Ⓒ" 1', 'a 1Ⓒb', 'a /*ⒸⒸ*/1',
    'a "¤" k=1', 'a /*¤¤*/ 1', 'a "\t" 1', '\ta\t1\t{\tb\t}\n', 'a⟦ |\t|\xa0|\u3000|\u2003| \t⟧1⟦\n|\r\n|\r|\n\r|\x0c|\x85|\u2028|\u2029|\r\r\n|\n\n⟧⟦|\t|  |\u3000⟧b ⟦"é"|"中"|"😀"|"e\u0301"|"\u200b"|"\x01"|"\x0b"|"\x7f"⟧ k=2 {c;}',
    'n "⟦é|中|😀|\u0301|\u200b|\x00|\x1f|\x7f|\t|\x0b|ｱ|\u1100|한⟧⟦a|\n|\r\n|\r|\x0c|\x85|\u2028⟧⟦é|中|\t|a⟧" k=1 {b;}',
    '⟦é|中|😀|\ufeff⟧⟦é|中|\u0301⟧ ⟦é|中⟧=⟦"é"|r"中"|1⟧ {\r\n\t⟦é|b⟧;\r\n}\rc',
    'a\nb\nc\nd\ne\nf\ng\nh\ni\nj\nk\n⟦l 1|"\n"|/*\n\n*/m|\n⟧\nz ¤',
    'xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx ¤¤ "yyyyyyyyyyyyyyyyyyyyyyyyyyyy" {z;}',
])
LINES_T = unique(STRUCT_T[:6], BLANKS[:30], STRINGS[:12], ['③', 'a ③1', 'a "③" 1', '②', 'a "②" 1', 'ⓇⓇⓇⓇa', 'a "ⓇⓇⓇⓇ" 1', 'aⓊⓊ1', 'a "ⓊⒸ" 1'])
BL_NOMB = [t for t in BLANKS if '⑶' not in t and '⑵' not in t]

# ---------------------------------------------------------------- sizes: long tokens, many elements, deep nesting around symbolic parts
X, Y = 'abcdefgh' * 40, 'é中😀x' * 40
BIG_TREE = [
    'n ' + '1 ' * 300 + '¤', 'n ' + '1 ' * 70 + 'k=1 ' + '2 ' * 70 + '¤=3', 'a;' * 300 + '¤', 'a {' * 24 + 'b ¤' + ';}' * 24, 'a {' + 'b 1;' * 150 + '¤;}', '(' + X + ')' + X + ' (' + X + ')"' + X + '" ' + X + '=¤',
    'n ' + ' '.join('k%d=%d' % (i, i) for i in range(150)) + ' k⟦0|99|149|150|15⟧=¤', ' '.join('n %d {a %d;b {c %d;};};' % (i, i, i) for i in range(40)) + '¤',
]
BIG_BLANK = [
    'a' + ' ' * 300 + '¤1', 'a ' + '\\\n' * 60 + '¤', 'a /*' + X + '¤' + X + '*/ 1', 'a //' + X + '¤' + X + '\nb', 'a ' + '/*' * 30 + '¤' + '*/' * 30 + ' 1', 'a ' + '/*' * 12 + 'Ⓐ' + '*/' * 6 + 'Ⓐ' + '*/' * 6 + ' 1', '\n' * 300 + '¤a', 'a ' + '/-1 ' * 60 + '¤', '/-a;' * 60 + '¤', 'a ' + '/-{b;} ' * 12 + '{c;}¤', '/-a {' * 12 + 'b;' + '};' * 12 + '¤',
    'a /*' + '/*x*/' * 60 + '*/¤1', 'a /*' + '*' * 70 + 'Ⓐ/1', 'a /*' + '/' * 70 + 'Ⓐ*/1', ';' * 70 + '¤', 'a ' + '/*x*/' * 60 + '1¤',
]
Z = ' /*x*/ /**/' * 9                       # many separate runs of blanks and comments in each place that takes blanks
BIG_BLANK += [
    'a \\' + Z + '¤\nb', 'a \\' + Z + '//¤\n1', 'a' + Z + '¤1', Z + '¤a', 'a /-' + Z + '¤1 2', 'a /-' + '\\\n' * 20 + '¤1 2', 'a 1' + Z + '¤{b;}', 'a {' + Z + '¤b;}', 'a {b' + Z + ';¤}', '/-' + Z + '¤a 1\nb',
    '/-' + '\\\n' * 20 + '¤a 1\nb', 'a {b;}' + Z + '¤;b', 'a ' + '\\ //x\n' * 20 + '¤1', 'a {' + '\n //x\n' * 20 + '¤}', 'a /-{' + Z + '\n' * 20 + '¤b;} 1', 'a /-' + Z + '¤{b;}', 'a 1;' + Z + ';' + Z + '¤b', 'a /-k=1' + Z + '/-2' + Z + '¤3', 'a {b 1' + Z + '\\' + Z + '\n' + Z + '¤;}',
]
BIG_STR = [
    'n "' + X + '¤' + X + '"', r'n "' + r'\n\u{41}\\' * 40 + r'\¤"', 'n r"' + X + '¤' + X + '"', 'n r' + '#' * 60 + '"a"' + '#' * 59 + '¤"' + '#' * 60, 'n r#"' + '"' * 60 + '¤"#', 'n "' + Y + '¤"', '"' + Y + '" "' + Y + '"="' + Y + '¤"', '("' + X + '¤")n', r'n "\u{00000Ⓗ}\u{10ⒽⒽFF}' + X + '"', 'n r' + '#' * 9 + '"' + '"########' * 9 + '¤"#########', 'n "' + '\n' * 80 + '¤"',
]
BIG_NUM = [
    'n 0x' + '0' * 80 + 'ⒽⒽ', 'n ' + '1_' * 60 + '¤', 'n -' + '0' * 80 + 'Ⓓ', 'n 0b' + '0_' * 80 + '1Ⓓ', 'n 1.' + '0' * 90 + 'Ⓝ', 'n 1e' + '0' * 90 + 'Ⓝ', 'n ' + '9' * 90 + 'Ⓝ', 'n 0x' + 'f' * 60 + 'Ⓝ', 'n 0x' + 'f_' * 15 + 'ⒽⓃ', 'n ' + '0' * 90 + '.Ⓝ1',
]
BIG_ID = [X + '¤', 'n ' + X + '¤=1', '(' + X + '¤)n', Y + '¤', 'n ' + Y + '⑵=1', '-' * 80 + '¤', '+' + X + '¤', 'r' + '#' * 60 + '¤', 'true' * 30 + '¤', 'n ' + 'null' * 30 + '¤=1', 'r' * 70 + '¤ 1', '-' * 70 + '1¤']
BIG_DUP = [
    'n ' + ' '.join('k=%d' % i for i in range(150)) + ' ⟦k|l⟧=Ⓓ', 'n ' + ' '.join('%s=%d' % (k, i) for i, k in enumerate('abcdefghijklmnopqrstuvwxyz' * 3)) + ' Ⓛ="x" "Ⓛ"=2', 'n ' + ' '.join('%d k%d=1' % (i, i) for i in range(60)) + ' k⟦0|1|16|31|59|60⟧=⟦1|null⟧ Ⓓ', 'n ' + X + '=1 ' + X + 'Ⓛ=2 ' + X + 'Ⓛ=3 ' + X + '=4', 'n "' + X + '"=1 r#"' + X + '"#=2 ' + X[:-1] + 'Ⓛ=3',
]
LW = '⟦\ufeff|\u3000|\u200b|\u4e2d|\u00e9|\u0301|\U0001f600|\u2028|\u2029|\u0085|\x0c|\x0b|\r|\t| |\x00|\u00ad⟧'
LINES += ['n "\r' + LW + '\n" 1', 'n "\r¤\n" 1', 'a;\r⟦\ufeff|\u3000|\u00a0|\u2028|\u2029|\u0085|\x0c|\r|\t| |;⟧\nb', '//\r' + LW + '\nb', '/*\r' + LW + '\n*/b', 'n "' + LW + '\r\n' + LW + '" 1', 'n "' + LW + '\n\r' + LW + '" 1', 'a "' + LW + LW + '" k=1', 'a \\\r⟦\ufeff|\u3000|\u2028|\u0085|\r⟧\nb']
BIG_SPAN = [
    '\n' * 300 + 'a ¤', ' ' * 300 + 'a ¤', 'a "' + Y * 3 + '" k=¤ {b;}', '/*' + Y * 3 + '*/a ¤', '中' * 200 + ' ¤', '\t' * 60 + 'a ¤ {\n' + '\t' * 40 + 'b;}', '\r\n' * 150 + 'a {' + '\r\n' * 150 + 'b ¤;}' + '\n\r' * 20 + 'c', 'a ' + '1 ' * 150 + '¤', 'a "' + '\n' * 150 + 'x" k=¤', 'a {' * 20 + '¤;' + '\n}' * 20, X + ' ' + X + '=' + '1¤', '//' + X * 4 + '\na ¤', 'a /-"' + X + '" ¤;/-' + X + ' 1\nb 1',
]
BIG_ERR = ['\n' * 300 + 'a ¤¤', 'a "' + Y * 2 + '" ¤¤', 'a ' + X + '¤', 'a ' + '1' * 80 + '=¤', '/*' + Y + '*/n 1=2¤', 'a 1;' * 70 + 'b c', 'a {' * 20 + 'b x¤' + ';}' * 20]
BIG_UN = ['n 1;' * 70 + 'm §{' + '\na 1;' * 50 + 'Ⓛ;', 'n §"' + X + 'Ⓟ', 'é' * 90 + ' §/*' + X + 'Ⓛ', 'n "' + Y + '" §"Ⓟ', '\n' * 90 + 'n §{' + 'a {b;};' * 20, 'a §{' + 'a {' * 9 + 'c Ⓓ;' + '};' * 9, 'n §/*' + '/**/' * 30 + 'Ⓛ']

# ---------------------------------------------------------------- errors
UNCLOSED = ['n §"', 'n §/*', '§/*', 'n {\n§/*', 'n 1 §"', 'n {a;\n}\nm §{', 'n §"ⓅⓅ', 'n 1 §"Ⓟ', '§"ⓅⓅ', 'n k=§"ⓅⓅ', 'n (§"Ⓟ', '(§"Ⓟ', 'n §{', 'n §{ⓁⓁ;', 'n 1 §{\n a\n b ⟦1|"x"|{}|{c;}|/*}*/⟧\n', 'a {b;}\nc §{ d Ⓓ\n', 'n §{a {b;}\n', 'n {a §{b;\n', 'n §/*ⒶⓁ', 'n 1 §/*ⓁⓁⓁ', '§/*ⓁⓁ', 'n §/* /*x*/Ⓛ', 'n ⟦1|"x"|k=2|(t)3|/-4⟧ §"é⑶', 'a;b 1;⑶ §"x', 'ab {\nc §"⟦é|中|\n|x⟧', '/-a §"Ⓟ', 'é§/*⑵']
ERR = unique(SMALL, CONTEXT, [
    'n "\\¤¤"', r'n "\u{¤¤}', r'n "\u{ⒽⒽⒽⒽⒽⒽ}"', 'n 1=¤', 'n null=¤', 'n ¤¤ }', 'n }¤', '}¤', 'n {}}¤', 'n 1¤2', 'n a', 'n a¤', 'n é¤', 'n ⑵', 'n ⑶', '⑵ ⑶', 'n "⑶\\⑵"', 'n "é\\¤"', 'é {⑵}', 'n ⑷ 1', 'n 0x¤', 'n 1.¤', 'n -¤ é', 'n "é" ¤¤', '中 {\n é ¤¤\n}',
    'n ⟦1|x|"s"|k=1|true|k=x|1=1|null=1|x=|=1|(t)|(t)x|/-|/-x|"s|r#"s"|{|}|/*|\\⟧⟦ |\n|;|⟧⟦1|x|"s"|k=1|true|k=x|1=1|null=1|x=|=1|(t)|(t)x|/-|/-x|"s|r#"s"|{|}|/*|\\⟧',
    '⟦true|null|1|-1|(1)a|(null)a|()a|a(|=|"\\x"|"\\u{}"|"\\u{d800}"|r"|,|<|é=1⟧⟦ 1| x|⟧', 'a x;b y;c ⟦1=2|z|"\\q"|"\\u{110000}"⟧',
])
ERR_T = unique(STRUCT_T[:8], TOKENS, BLANKS, STRINGS, IDENTS, NUMBERS)

# ---------------------------------------------------------------- totality
TOTAL = unique(SMALL, CONTEXT[:14], [
    'ⓀⓀⓀⓀ', 'n "ⓀⓀ', 'n r#"ⓀⓀ', 'n /*ⓀⓀ', 'n {ⓀⓀ', r'n "\ⒺⒺⒺ', r'n "\u{ⒽⒽⒽⒽ', r'n "\u{ⒺⒺⒺ', r'n "\u⑶', r'n "\u{⑶}"', 'n ⓃⓃⓃ', 'n 99999999999999999999999999999999ⓃⓃ', 'n 1e99999999999999999999999ⓃⓃ', '⑵', '⑶', '⑷', 'n ⑶', 'n "⑷', 'n {⑶', '(⑶', 'n /*⑶', 'n ⑶=⑵', '/-⑷', 'n \\⑶', 'a\x00¤',
    'a{' * 20 + '¤¤', 'a{b;};' * 10 + '¤', 'n ' + '/*' * 12 + '¤¤', 'n ' + '/*' * 8 + 'x' + '*/' * 7 + '¤¤', 'n ' + '1 ' * 40 + '¤', 'n ' + 'k=1 ' * 20 + '¤', 'n "' + 'x' * 120 + '¤', 'n r' + '#' * 30 + '"x"' + '#' * 29 + '¤', ('a' * 60) + '¤', '(a)' * 10 + '¤', '/-' * 10 + '¤', '\\\n' * 10 + '¤', '}' * 5 + '¤', '"' * 9 + '¤', '\n' * 40 + '¤¤', '((((((((¤', 'n k=' * 6 + '¤', 'n "\\u{110000}" "\\u{d800}" "\\x" x y 1=2 ¤',
])
TOTAL_L = [t for t in TOTAL if '⑶' not in t and '⑵' not in t and '⑷' not in t] + ['Ⓤ¤', 'n "ⓊⒸ', 'n Ⓤ=Ⓒ', 'n \\Ⓤ', '(Ⓒ', '中é😀¤']
TOTAL_T = unique(STRUCT_T, BLANKS_T, STRINGS_T, NUMBERS_T, IDENTS_T, ['a{' * 30 + '¤', 'n ' + '/*' * 30 + '¤'])

# ---------------------------------------------------------------- decoding
LITS = '⟦1|"x"|true|null|1.5|-1|r"é"⟧'
TYL = '⟦|(u8)|(i8)|(u16)|(i16)|(u32)|(i32)|(u64)|(i64)|(usize)|(isize)|(f64)|(f32)|(base64)|(x)|(string)|("")⟧'
ANY = 'n ' + TYL + LITS
EDGE = {
    'd_u8': ['n ⟦|-|+⟧ⒹⒹⒹ', 'n 0xⒽⒽⒽ', 'n 0b1111111ⒹⒹ', 'n 0o3ⒹⒹ', 'n ⓃⓃⓃ', 'n (ⓁⒹ)1', 'n (ⓁⒹⒹ)1', 'n (⑶)1', 'n ¤¤'],
    'd_i8': ['n ⟦|-|+⟧ⒹⒹⒹ', 'n -0x⟦7|8⟧Ⓗ', 'n 0x⟦7|8⟧Ⓗ', 'n -ⓃⓃⓃ', 'n (ⓁⒹ)-1', 'n ¤¤'],
    'd_u16': ['n 655ⒹⒹ', 'n ⒹⒹⒹⒹⒹ', 'n 0xfffⒽⒽ', 'n 65_ⒹⒹⒹ', 'n (ⓁⒹⒹ)1'], 'd_i16': ['n ⟦|-⟧327ⒹⒹ', 'n ⟦|-⟧ⒹⒹⒹⒹⒹ', 'n ⟦|-⟧0x⟦7f|80⟧ⒽⒽ', 'n (ⓁⒹⒹ)1'],
    'd_u32': ['n 42949672ⒹⒹ', 'n 429496729Ⓓ0', 'n 0xffffffⒽⒽ', 'n 0x1000000ⒽⒽ', 'n (ⓁⒹⒹ)1'], 'd_i32': ['n ⟦|-⟧21474836ⒹⒹ', 'n ⟦|-⟧0x⟦7fffff|800000⟧ⒽⒽ', 'n (ⓁⒹⒹ)1'],
    'd_u64': ['n 184467440737095516ⒹⒹ', 'n 0xffffffffffffffⒽⒽ', 'n 0o1777777777777777777777Ⓓ', 'n (ⓁⒹⒹ)1'], 'd_i64': ['n ⟦|-⟧92233720368547758ⒹⒹ', 'n ⟦|-⟧0x⟦7fffffffffffff|80000000000000⟧ⒽⒽ', 'n (ⓁⒹⒹ)1'],
    'd_usize': ['n 184467440737095516ⒹⒹ', 'n 0xffffffffffffffⒽⒽ', 'n (Ⓛsize)1'], 'd_isize': ['n ⟦|-⟧92233720368547758ⒹⒹ', 'n (Ⓛsize)-1'],
    'd_boxu8': ['n 2ⒹⒹ', 'n (ⓁⒹ)1'], 'd_arci16': ['n ⟦|-⟧327ⒹⒹ'], 'd_spanu8': ['n ⟦|(u8)|/*é*/⟧2ⒹⒹ', 'é;n\t(Ⓛ8)1'],
    'd_f64': ['n Ⓓ.Ⓓ', 'n 1eⒹ', 'n ⟦|-|+⟧⟦1|0|1_0|9007199254740993|123456789012345678901234567890|0.1|1.7976931348623157|4.9|2.2250738585072011⟧⟦.0|.5|e0|E5|e+5|e-5|e308|e309|e-324|e-308|.5e1_0|e400⟧', 'n (Ⓛ64)1.5', 'n (ⓁⒹⒹ)1.5', 'n ⟦9007199254740993.⟦0|00000001|0000000000000000001|9⟧|1.000000000000000111022302462515⟦6|654|65404236316680908203125|654042363166809082031250001|654042363166809082031249999|7⟧|2.4703282292062327208⟦2|3|28|299|0⟧e-324|1.797693134862315⟦7|8|80|808|9⟧e308⟧', 'n ⒹⒹ.ⒹⒹ'],
    'd_f32': ['n Ⓓ.Ⓓ', 'n 1eⒹ', 'n ⟦|-|+⟧⟦1|0|1_0|16777217|123456789012345678901234567890|0.1|3.4028235|1.4|1.17549435⟧⟦.0|.5|e0|E5|e+5|e-5|e38|e39|e-45|e-46|e-38|.5e1_0⟧', 'n (Ⓛ32)1.5', 'n ⟦1.00000005960464477⟦5|53|539|5390625|53906250000001|53906249999999|6⟧|1.00000017881393432⟦6|617|6171875|61718750000001|61718749999999|7⟧|16777217.⟦0|00000001|0000000000000000001|9⟧|7.006492321624085⟦3|4|2⟧e-46|3.40282356779733⟦66|661|67|65|7⟧e38⟧', 'n ⒹⒹ.ⒹⒹ'],
    'd_bool': ['n truⓁ', 'n falsⓁ', 'n (ⓁⓁⓁⓁ)true', 'n ¤¤', 'n "true"'], 'd_string': ['n "ⓅⓅ"', 'n "⑶\\Ⓔ"', 'n r#"¤⑷"#', 'n (ⓁⓁ)"a"', 'n ¤¤'],
    'd_pathbuf': ['n "Ⓟ⑵"'], 'd_arcpath': ['n "Ⓟ⑵"'], 'd_arcstr': ['n "Ⓟ⑶"'], 'd_rcstr': ['n "Ⓟ⑵"'], 'd_spanstr': ['é n;n "Ⓟ⑶"', 'n \\\n r"⑷Ⓟ"'],
    'd_lit': ['n ¤¤', 'n (¤)¤', 'n 1844674407370955161Ⓓ', 'n -ⒹⒹ', 'n "Ⓟ"'], 'd_boxopt': ['n ¤ull', 'n tru¤'], 'd_spanopt': ['n ⟦|-⟧12Ⓓ', 'n nul¤'],
}
for _k in ('u8', 'i8', 'u16', 'i16', 'u32', 'i32', 'u64', 'i64', 'usize', 'isize'):
    EDGE['d_' + _k] = EDGE['d_' + _k] + ['n ⟦|-|+⟧⟦0|00|0_0⟧Ⓓ', 'n ⟦|-|+⟧0⟦x|b|o⟧⟦|0|0_|1_⟧Ⓗ']
SCAL = {k: [ANY] + v for k, v in EDGE.items()}
WORDS = {
    'd_word': [ANY, 'n "ⓁⓁⓁ"', 'n "¤ed"', 'n "dark¤blue"', 'n "x11-colo¤"', 'n "⟦red|dark-blue|DarkBlue|darkblue|x11-color|x-11-color|x11Color|type|r#type|abc|a-b-c|ABC|Red||red ⟧"', 'n (Ⓛ)"red"', 'n r"ⓁⓁⓁ"', 'n "ⓁⓁⓁⓁ"', 'n reⓁ'],
    'd_two': ['n "ⓁⓁ"', 'n "ⓁⓁⓁ"', 'n ⟦"on"|"off"|"On"|on|true|null|1⟧'],
    'd_bytes': [ANY, 'n (base64)"ⒷⒷⒷⒷ"', 'n (base64)"AAAAⒷⒷⒷⒷ"', 'n (base64)"ⒷⒷⒷ"', 'n (base64)"ⒷⒷⒷⒷA"', 'n (base64)"ⒷⒷ=="', 'n (base64)"ⒷⒷⒷ="', 'n (base64)"A⑵A"', 'n "¤¤"', 'n "⑶⑷"', 'n r#"¤"#', 'n (¤ase64)"eA=="', 'n (ⓁⓁ)"eA=="', 'n (base64)⟦1|true|null|1.5⟧', 'n (base64)""'],
    'd_modes': ['n "a" "Ⓛ"⟦| null| "x"| 1| (base64)"eA=="| (base64)null| (t)null⟧⟦| "c"| null| "z"| 2⟧', 'n "Ⓟ" "b" (base64)"ⒷA==" "Ⓛ"', 'n (ⓁⓁ)"a" (Ⓛ)"b"', 'n "⑶" "⟦|a|aa|n|A|am|a ⟧" "⑵" null'],
    'd_modesp': ['n a="x" b=⟦"b"|"z"|1⟧ Ⓛ=⟦"b"|null|1|(t)"b"|(t)null⟧ ⟦a|c|d|e|f⟧=⟦"b"|null|1|(base64)"b"|(base64)null⟧', 'n a="Ⓟ" b="Ⓛ" c="Ⓟ" d="Ⓛ" e="Ⓛ"', 'n b="a" a=(base64)"ⒷⒷ==" f=(base64)"Ⓑg=="'],
    'd_modesv': ['n Ⓛ=⟦"b"|null|1|(t)"b"⟧ Ⓛ=⟦"b"|"z"|(t)null⟧ ⟦"x"|1|(base64)"eA=="|(x)"x"|null⟧', 'n "⑵" (base64)"ⒷA==" Ⓛ="Ⓛ"'],
    'd_modesd': ['n⟦| "b"| "z"| null| (base64)"eA=="⟧⟦| "b"| null| (base64)"eA=="| (t)"x"⟧⟦| "b"| null| 1| (base64)"e"⟧⟦| "b"| "z"| (base64)"Yg=="| null⟧', 'n ⟦p|q-q|x|P⟧=⟦"b"|"z"|null|1|(base64)"eA=="|(t)"b"|(base64)null⟧ ⟦p|q-q|x|y⟧=⟦"a"|null|(base64)"eQ=="|true⟧', 'n "Ⓛ" "Ⓟ" (base64)"ⒷA==" "Ⓛ" "Ⓛ" p="Ⓛ" q-q="Ⓟ" Ⓛ=(base64)"ⒷQ=="', 'n Ⓛ="¤"'],
    'd_modesw': ['⟦a|b|c|d|e|f|g|h|x⟧⟦| "b"| "z"| (base64)"eA=="| (t)"b"| null| 1⟧⟦| "b"| b="b"| k="b"| b=(base64)"eA=="| k=(base64)"eA=="| k="z"| b=null| {rest "b";}| {rest (base64)"eA==";}| {rest;}| {e "b";}⟧', '⟦a|b|c|d|e|f|g|h|x⟧ "Ⓛ" "Ⓛ"', '⟦b|c|d|g⟧ Ⓛ="Ⓛ" Ⓛ=(base64)"ⒷA=="', 'h "a";x {rest "Ⓟ";};h "Ⓛ";y {rest (base64)"ⒷQ==";}', '⟦b|c|d|g⟧ b=⟦"z"|"b"⟧ k=⟦"b"|"z"|(base64)"e"⟧ b="a"'],
    'd_modest': ['n⟦| "b"| "z"| null⟧⟦| "b"| (base64)"eA=="| null| 1⟧⟦| p="b"| p=null| x="b"| x="z"⟧⟦| "c"| p=(base64)"eA=="| x=(base64)"eA=="| y="b"| y=null⟧', 'n Ⓛ="Ⓛ" "Ⓛ" "Ⓟ" p=(base64)"ⒷA=="'],
    'd_modese': ['⟦a|b|c|d⟧⟦| "b"| "z"| (base64)"eA=="| (t)"b"| null⟧⟦| k="b"| k="z"| x="b"| "b"| (base64)"eA=="⟧⟦| {}| {x;}| {x "b" (base64)"eA==";x;}| {y;}⟧', '⟦a|b|c⟧ "Ⓟ" Ⓛ="Ⓛ"', 'b "Ⓛ" "Ⓟ" (base64)"ⒷA=="'],
    'd_modesf': ['n⟦| "xy"| "x"| (base64)"eHk="| (base64)"eA=="| 5| (t)"xy"⟧⟦| "ab"| "abc"| null| (base64)"YWI="| (base64)"!"| 5| (t)"ab"⟧⟦| "cd"| null| ""| (base64)null| (base64)""⟧⟦| "ef"| "e"| null⟧', 'n "xy"⟦| p="xy"| p="x"| p=null| q="ab"| q="abc"| q=null| q=5| k="cd"| k="c"| k=null| q=(base64)"YQ=="⟧⟦| p=(base64)"eHk="| q=(t)"ab"| l="ef"| l=(base64)"ZWY="| l=(base64)"ZQ=="⟧',
                 'n "xy" {⟦u|u "ab"|u "a"|u null|u 5|v k="ab"|v k="a"|v|w|w "ab" "cd"|w "ab" "c"|w 5⟧;⟦v k="cd"|v k=""|u (base64)"YWI="|u (base64)"YQ=="|w (base64)"YWI="⟧;}', 'n "ⓅⓅ" "Ⓟ"', 'n "Ⓟ" "ⓅⓅ"', 'n "xy" "ⓅⓅⓅ"', 'n "xy" null null "⑵" "Ⓛ"', 'n (base64)"eHⒷ=" "⑵" null', 'n "xy" (base64)"ⒷⒷ=="', 'n "xy" Ⓛ="Ⓟ"', 'n "xy" Ⓛ="ⓅⓅ"', 'n "xy" {Ⓛ "Ⓟ" "ⓅⓅ";}', 'n "xy" {Ⓛ k="Ⓟ";}', 'n "xy";n "x";n "yy" "z";n "ab"'],
    'd_modesu': ['⟦a|(t)a⟧ ⟦"x"|1|"x" 2|(base64)"eA=="|⟧;⟦b|c|d⟧ ⟦"Ⓛ"|1|"x" "y"|(base64)"eA=="|⟧;Ⓛ ⟦"x"|1|null⟧'],
}
ARGS = {
    'd_args': ['n ⟦1|256|x=1|"a"|(u8)2⟧ ⟦true|1|(bool)false|null⟧⟦| "x"| null| (t)"x"| 5⟧⟦| 3| 4 "5"| x=1| {a;}| {}⟧', 'n ⒹⒹ true "Ⓛ" Ⓓ Ⓓ Ⓓ', 'n Ⓓ ¤¤¤', 'n 1 tru¤ null ¤¤'],
    'd_tuple': ['n ⟦1|x⟧⟦| true| null| k="x"| k=null⟧⟦| true| 1| k=1⟧', 'n ⒹⒹ Ⓛ="Ⓛ" true', 'n k="Ⓟ" Ⓓ ¤alse'], 'd_nothing': ['⟦|(t)⟧n⟦| 1| k=1| {}| {a;}| {a;b;}⟧⟦| 2| k=2⟧', 'n¤¤', 'n ¤¤¤'],
    'd_pairs': ['n ' + LITS + ' ' + LITS + ' a=' + LITS + ' ⟦a|b⟧=' + LITS, 'n Ⓛ=Ⓓ Ⓛ=Ⓓ Ⓓ Ⓓ Ⓛ="Ⓛ"', 'n (ⓁⓁ)1 Ⓛ=(Ⓛ)"x"', 'n "⑶" ⑵=1'],
    'd_props': ['n plug-name=⟦"a"|1|null⟧⟦| plug-name="z"| Other=1| Other=null| c=3⟧⟦| d=4| d=null| type=8| type="x"⟧⟦| z=1| c=null| z="a"| 3| plug_name="x"⟧', 'n plug-name="Ⓟ" Ⓛ=Ⓓ Ⓛ=Ⓓ Ⓛ=Ⓓ', 'n plug¤name="a" plug-name="b"', 'n plug-name="a" Othe¤=1 typ¤=2', 'n plug-name="a" "Ⓛ"=1 r"Ⓛ"=2'],
    'd_exact': ['n q-r=1⟦| 1| p=2| null| p=null⟧⟦| 1| p=2| null| z=3 p=null⟧⟦| q-r=2| {}| {a;}| q_r=1⟧', 'n ¤=1 q-r=2', 'n q-r=¤', 'n q¤r=1', 'n q-r=Ⓓ ¤¤', 'n Ⓛ=Ⓓ q-r=Ⓓ Ⓛ=Ⓓ'],
    'd_gen': ['n ⒹⒹⒹ', 'n Ⓓ ¤'],
}
KIDS = {
    'd_kids': ['⟦one 1|(t)one 1|one|one 1 2⟧;⟦|two-x 1|(t)two-x 1|one 2|flag-it⟧;⟦|flag-it|(t)flag-it|flag-it 1|flag-it k=1|flag-it {}|flag-it {a;}|dflt 3|nine 4|two-x 5⟧;⟦m 1|o 1|w 1|z⟧;⟦m 2|o 1|w 2⟧', 'one Ⓓ;Ⓛ Ⓓ;Ⓛ Ⓓ;Ⓛ Ⓓ', 'one 1;flag¤it', 'one 1;two¤x Ⓓ;dfl¤ Ⓓ;nin¤ Ⓓ', 'on¤ 1', 'one 1;¤', 'one 1;m Ⓓ;o Ⓓ;⟦m|w|o⟧ Ⓓ;m Ⓓ;w ⒹⒹⒹ'],
    'd_kidsbox': ['⟦one 1|two-x 3|⟧;⟦|two-x 1|one 2|flag-it⟧', 'one Ⓓ;Ⓛ Ⓓ'], 'd_kidsarc': ['⟦one 1|two-x 3|⟧;⟦|two-x 1|one 2|flag-it⟧', 'one Ⓓ;Ⓛ Ⓓ'],
    'd_kidsnode': ['n {⟦one 1|two-x 3|⟧;⟦|two-x 1|one 2|flag-it⟧;⟦|flag-it|(t)flag-it|flag-it 1⟧;}⟦|\nn|\nn {}|\nn {one 2;}⟧', 'n {one Ⓓ;Ⓛ Ⓓ;Ⓛ Ⓓ;}', 'n {one 1;}\nn {on¤ 2;}', '⟦n|(t)n|n 1|n k=1⟧ {one Ⓓ;}'],
    'd_deep': ['n {⟦kids|n|kids p=1|kids 1⟧⟦ {c;}| {b 1;}| {d 1;d 2;}| {e;e;}| {b 1;b 2;}|⟧; ⟦n 2|kids|n {n;n {n;};}⟧;}', 'Ⓛ {Ⓛ {Ⓛ Ⓓ;}\nⓁ Ⓓ;}', 'n {kids {Ⓛ;Ⓛ Ⓓ;};}', 'n {kids {d Ⓓ;b Ⓓ;d Ⓓ;Ⓛ;};}', 'n {a;b Ⓓ {Ⓛ Ⓓ;};c;}', 'n Ⓓ {kid¤ {c;};n ¤;}'],
}
WRAP = {
    'd_wraps': ['a 1⟦|;b "x"|;b|;b null|;(t)b "x"|;b "x" 2|;t-f true|;t-f|;c|;c 1 2|;c "x"|;d v=1|;d|;d 1|;d w=1⟧⟦|;e|;e a=1 b=2|;e a="x"|;f|;f {f 1;}|;f {f 1;f 2;}|;f {g;}|;g|;g {x 1;x 2;}|;g {y;}|;h|;h {x 1;y 2;}|;h 1⟧⟦|;i {i 1;}|;i {}|;i {(t)i 1;}|;j 1|;j 2;j 3|;j|;k 1|;k|;l|;l 4|;l null|;a 2⟧',
                'a ⒹⒹⒹ', 'a 1;Ⓛ Ⓓ', 'a 1;b "Ⓟ";c Ⓓ Ⓓ;d v=Ⓓ', 'a 1;Ⓛ Ⓛ=Ⓓ', 'a 1;Ⓛ {Ⓛ Ⓓ;}', 'a 1;i {i Ⓓ;};j Ⓓ;k Ⓓ;j Ⓓ;l Ⓓ', 'a 1;e Ⓛ=Ⓓ Ⓛ=Ⓓ', 'a 1;h {Ⓛ Ⓓ;Ⓛ Ⓓ;}', 'a 1;g {Ⓛ Ⓓ;x Ⓓ;}', 'a 1;t¤f true', '¤ 1', 'a ¤¤', 'a 1;Ⓛ', 'a Ⓓ;Ⓛ Ⓓ;Ⓛ Ⓓ', 'a 1;(Ⓛ)Ⓛ 1'],
    'd_wraprest': ['⟦a 1|b 1 2|c|(t)c 1|c k=1|c {}|c "x"⟧;⟦a 1|b 1 2|c|(t)c 1|c k=1|c {}|c "x"⟧', 'Ⓛ Ⓓ Ⓓ;Ⓛ Ⓓ', 'Ⓛ ¤;Ⓛ Ⓓ'], 'd_wrapnode': ['n {⟦a 1|b 1 2|c|(t)c 1|c k=1|c {}|c "x"⟧;⟦a 1|b 1 2|c|(t)c 1|c k=1|c {}|c "x"⟧;}', 'n {Ⓛ Ⓓ Ⓓ;Ⓛ Ⓓ;}', 'n {Ⓛ;}\nn {a Ⓓ;Ⓛ;}'],
}
FLAT = {
    'd_flat': ['⟦url 1|last|name 1|on|(t)on|leaf 2|deep 3|zz⟧;⟦url 1|last|name 1|on|leaf 2|deep 3|zz⟧;⟦url 1|last|name 1|on|on 1|leaf 2|deep 3|zz⟧', 'url Ⓓ;name Ⓓ;leaf Ⓓ;deep Ⓓ', 'url 1;nam¤ Ⓓ;dee¤ Ⓓ', 'url 1;o¤', 'url 1;lea¤ Ⓓ;las¤', 'url 1;ⓁⓁ', 'deep ⒹⒹⒹ;url 1'],
    'd_flatnode': ['n {url 1;⟦url 1|last|name 1|on|leaf 2|deep 3|zz⟧;⟦url 1|last|name 1|on|leaf 2|deep 3|zz⟧;}', 'n {url Ⓓ;deep Ⓓ;on;}\nn {url Ⓓ;nam¤ Ⓓ;}'], 'd_flatbox': ['⟦deep 1|a 1|b 2⟧;⟦deep 1|a 1|b 2⟧;⟦deep 1|a 1|b 2⟧', 'dee¤ Ⓓ;Ⓛ Ⓓ;deep Ⓓ'],
    'd_flatp': ['n ⟦1|p=1|a-b=1|s="a"|s="z"|zz=1|x=1|a-b=null|s=null⟧ ⟦1|p=1|a-b=1|s="a"|s="z"|zz=1|x=1⟧', 'n Ⓛ=Ⓓ Ⓛ="Ⓛ" zz=Ⓓ', 'n a¤b=1 p=Ⓓ', 'n ⓁⓁ=Ⓓ ⒹⒹⒹ', 'n zz=⟦|-⟧ⒹⒹⒹ a-b=ⒹⒹ', 'n zz=Ⓓ zz=Ⓓ a-b=Ⓓ a-b=Ⓓ'],
    'd_flatpr': ['n ⟦zz=1|x=1|zz=null|x=null|1|y="x"⟧ ⟦zz=1|x=1|zz=null|x=null|1|y="x"⟧', 'n ⓁⓁ=Ⓓ ⓁⓁ=Ⓓ', 'n zz=Ⓓ Ⓛ=Ⓓ zz=Ⓓ'],
}
OPTS = {
    'd_opt': ['n ' + TYL + LITS + ' ' + LITS, 'n ' + LITS + ' ' + TYL + LITS, 'n', 'n 1', 'n null "a" 3', 'n nul¤ "Ⓛ"', 'n ⒹⒹ ¤ull', 'n ¤¤ null'],
    'd_optx': ['n Ⓛ=' + TYL + LITS, 'n a=Ⓓ b="Ⓛ" c="ⓁⓁⓁ" Ⓛ=' + LITS, 'n Ⓛ=null Ⓛ=' + LITS, 'n ⟦a|b|c|d|e⟧=' + TYL + LITS + ' ⟦a|b|c|d|e⟧=' + LITS, 'n Ⓛ=nul¤'],
    'd_argsd': ['n⟦| 1| null| 256⟧⟦| "x"| null⟧⟦| 1| null⟧⟦| true| null⟧⟦| 3⟧', 'n ⒹⒹ "Ⓟ" -Ⓓ tru¤', 'n Ⓓ nul¤', 'n ¤¤'],
    'd_props': ['n plug-name="a" Ⓛ=⟦1|null|"x"⟧ typ¤=Ⓓ', 'n ⟦|plug-name="a"|plug-name=null⟧ ⟦|c=1|c=null⟧ ⟦|d=null|d=5⟧ ⟦|type=null|type=9|Other=null⟧'],
    'd_kids': ['⟦one 1|⟧;⟦|dflt 2|nine 3⟧;⟦|o 1|w 1|m 1⟧;⟦|two-x 1⟧', 'one 1;Ⓛ Ⓓ'], 'd_wraps': ['a 1;⟦b|k|l|t-f|d|i|c⟧⟦| null| 1| "x"| true| v=null| v=1| {i null;}| {i 1;}⟧', 'a 1;Ⓛ null', 'a 1;Ⓛ nul¤'],
    'd_modesp': ['n a="x" b="a" ⟦c|d|e|f⟧=⟦null|"a"|(t)null⟧ ⟦c|d|e|f⟧=⟦null|"b"⟧'], 'd_boxopt': ['n nul¤', ANY], 'd_spanopt': ['n nul¤', ANY],
}
ENUM = {
    'd_en': ['⟦|(t)|(a)⟧⟦create|print-string|finish|internal-action|http-get|opt-leaf|loop|HTTPGet|Create|typed⟧⟦| "x"| 1| 1 2| k=1⟧⟦| {}| {finish;}| {finish;loop 2;}| {x;}⟧⟦|\nfinish|\nloop {loop {}\n}⟧',
             'creat¤ "Ⓟ"', 'finis¤', 'finish ¤', 'opt¤leaf Ⓓ', 'opt-leaf ⒹⒹⒹ', 'http-get k=Ⓓ Ⓓ Ⓓ', 'http-get Ⓛ=Ⓓ ⒹⒹⒹ', 'loop Ⓓ {finis¤;loop Ⓓ {loop;};}', '(Ⓛ)typed Ⓓ', '(Ⓛ)finish', 'print-string Ⓓ;Ⓛoop Ⓓ;finish', 'internal-actio¤', 'print-string Ⓓ;fⓁnish Ⓓ;⟦a|(a)loop⟧ {b;}', '¤', 'ⓁⓁⓁⓁ', 'prin⟦t-s|tS|t_s⟧tring ⒹⒹⒹ'],
    'd_holder': ['⟦first 1|finish|loop|create "x"|z⟧;⟦first 1|finish|loop|create "x"|z|finish 1⟧', 'loo¤;first Ⓓ;finis¤;loop Ⓓ'], 'd_news': ['⟦a|(t)a|a 1|a 1 2|a {}|a k=1|b|b 2|(t)b|c|c 1⟧;⟦a|(t)a|a 1|a 1 2|a {}|a k=1|b|b 2|(t)b|c|c 1⟧', 'Ⓛ Ⓓ;Ⓛ', 'Ⓛ;b Ⓓ;Ⓛ Ⓓ', 'a ¤;c ⒹⒹⒹ'],
    'd_maybe': ['⟦|(t)⟧n⟦| 1| 1 2| {}| k=1⟧⟦|;m|;m 1⟧', 'n ¤¤', 'n¤Ⓓ'],
}
SPECIAL = {
    'd_twice': ['Ⓛ;(Ⓛ)b {c;(d)Ⓛ;}', '⟦|(t)|("")|(u8)⟧⟦n|"a b"|r"x"⟧⟦| 1| {a;}|  {(x)b;}⟧', ' (¤)¤'],
    'd_tupspec': ['⟦|(a)|(z)⟧⟦b|z|"c d"⟧⟦| 1| "x"⟧⟦| {}| {a;}| {(b)a 1;a;}| {b;}| {(z)a;}⟧', '(Ⓛ)Ⓛ Ⓓ {(Ⓛ)Ⓛ Ⓓ;}'],
    'd_special': ['⟦|(t)⟧⟦n|"n x"|é⟧⟦| 1| null| 1 2⟧⟦| {}| {a;}| {(é)b 1;c;}| k=1⟧⟦|\n|;|//c⟧', '⑶ Ⓓ', '("ⓁⓁ")r"Ⓛ⑵" Ⓓ {(Ⓛ)⑶;\n Ⓛ Ⓓ;}', '(¤)¤¤', '/*⑶*/(⑵)Ⓛ /*⑷*/Ⓓ;n', '"\\ⒺⓁ" 1', 'n {a {b Ⓓ;}\n}¤m'],
    'd_checked': ['⟦|(a)|(z)|("")|(ab)⟧⟦n|b|"z"|é⟧⟦| 1| {}| {a;}⟧', '(Ⓛ)Ⓛ', '(ⓁⓁ)ⓁⓁ', 'Ⓛ', '("¤")a', '(a)"¤"', '(⑵)a'],
    'd_opttyped': ['⟦|(a)|(z)|("")|(ab)⟧n⟦| 1| p=1| p=null| p=(t)null| q=1⟧', '(Ⓛ)n p=Ⓓ', '(¤)Ⓛ', '(⑶)n'],
    'd_typename': ['(ⓁⒹ)n (ⓁⒹⒹ)1', '(ⓁⒹⒹ)n', '(⟦u|i|f⟧ⒹⒹ)a (⟦u|i|f⟧Ⓓ)1', '(base6Ⓓ)a (ⓁsizⓁ)2', '("⑶")n', '("¤8")n (u8)1', '(r"Ⓛ16")n', '(ⓁⓁⓁⓁⒹⒹ)n', '(Ⓛ64)n ("⟦u8|u9|U8|usize|isize|f32|f64|base64||string⟧")1 (u8)2'],
}
ARGS2 = {
    'd_exact': ['n q-r=1 Ⓛ=⟦null|(t)null|true|""⟧', 'n q-r=1 Ⓛ=nul¤', 'n ⟦q-r=1| q-r=null|⟧⟦| p=null| null|  p=3⟧⟦| z=null| null null| 1 null⟧'],
    'd_nothing': ['n k=⟦null|true|""⟧', 'n Ⓛ=nul¤', 'n null⟦| k=null⟧'],
    'd_args': ['n 1 "x" 2 true k=null', 'n 1 Ⓛ=nul¤'], 'd_tuple': ['n 1 ⟦k|k2|true|null⟧=null', 'n 1 true Ⓛ=nul¤'],
    'd_restopt': ['n ⟦1|null|(u8)null|(t)null|-1|"x"|k=null⟧ ⟦2|null|(u8)3|k=true|k=null|k=(t)null|k=1⟧ ⟦|null| 4| l=false⟧', 'n Ⓓ nul¤ ¤ull ⒹⒹⒹ', 'n Ⓛ=nul¤ Ⓛ=tru¤', 'n ¤¤ null 1'],
    'd_keylow': ['n Ⓛ=Ⓓ ⓁⓁ=Ⓓ', 'n "¤"=1', 'n ⟦a|z|""|é|az⟧=⟦1|256|"x"|(u8)2⟧ ⟦b|a⟧=⟦1|null⟧', 'n ⑵=1 a=2', 'n a=Ⓓ a=¤¤'],
    'd_props': ['n plug-name="a" Ⓛ=null', 'n plug-name="a" c=1 Ⓛ=nul¤'],
    'd_tuplep': ['n Ⓛ=nul¤', 'n "uⓁv"=null', 'n⟦| t=1| "u v"=2| u=3| 1| t=null| {}⟧⟦| t=4| "u v"=-5| "u\\u{20}v"=6| r"u v"=null⟧', 'n Ⓛ=Ⓓ "u¤v"=Ⓓ', 'n t=¤¤'],
    'd_tuplel': ['n⟦| 1| 1 2| k=1| "x"⟧⟦| l=2| k=3| 3⟧ {⟦x 1|y|y 1|⟧;⟦x 2|y|z|x⟧;}', 'n Ⓓ Ⓛ=Ⓓ Ⓓ {Ⓛ ⒹⒹⒹ;}', 'n {Ⓛ;x Ⓓ;Ⓛ¤}'],
}
KIDS2 = {
    'd_split': ['n⟦| 1| -129| null⟧⟦| "x"| (base64)"eA=="| null| 5⟧⟦| "a" "b"| "z"| null⟧⟦| p-p=1| p-p=null| q="b"| q="z"| q=null| p=1⟧⟦| p-p=256| free=1⟧', 'n⟦| {}| {c;}| {c 1;}| {d;}| {d k="a";}| {d "a";}| {e;}| {e 1;e 2;}| {f;}| {f {f 1 2;};}| {f {};}⟧⟦|;n {x;}|;n {x {h 1;};y {h 2;h 3;};}|;n {x {z;};}|;n {c 1;c 2;}⟧',
                'n -ⒹⒹⒹ "Ⓟ" "Ⓛ" p-p=Ⓓ q="Ⓛ"', 'n {Ⓛ Ⓓ;e Ⓓ;Ⓛ {h Ⓓ;};}', 'n {f {Ⓛ Ⓓ Ⓓ;};}', 'n {d Ⓛ="Ⓛ";c nul¤;}', 'n Ⓛ=Ⓓ {Ⓛ;}'],
    'd_tupkids': ['⟦a 1|b|b 1|c|deep 1|⟧;⟦a 2|b 3|(t)b|deep 2|deep|⟧;⟦a 256|b {}|z 1|z⟧', 'Ⓛ Ⓓ;Ⓛ;a Ⓓ', 'a Ⓓ;a ⒹⒹⒹ;b ¤', 'dee¤ Ⓓ;b Ⓓ;a Ⓓ;b Ⓓ;Ⓛ'], 'd_tupkidsn': ['n⟦| {}| {a 1;}| {b 1;c;}| {deep 1;}| {deep 1;deep 2;}| 1| k=1⟧', 'n {Ⓛ Ⓓ;Ⓛ;}', '(¤)n {b 1;}'],
    'd_tupstrict': ['⟦|a 1|b|b {}|b {c;}⟧;⟦|a 2|a|b {c;d {a 1;};}|b {c 1;}|c|b 1⟧;⟦|b {x {b {y;};a 3;};}⟧', 'Ⓛ Ⓓ;b {Ⓛ;Ⓛ {a Ⓓ;};}', 'b {x {Ⓛ {y {a Ⓓ;};};};}'],
    'd_nonothing': ['⟦|n|/-n|//n|{}⟧', '¤', '/-n 1¤'], 'd_nofields': ['⟦|n|/-n|//n|{}⟧', '¤', '¤n'], 'd_nones': ['⟦|a|a 1|a k=1|(t)a|a {}|a {b;}⟧;⟦b|b 1|b k=1|(t)b|b {}|b {b;}|c⟧;⟦b|a|⟧', 'Ⓛ;b ¤;Ⓛ', 'a k=¤'],
    'd_optlists': ['⟦a 1|b|b 1|c|⟧;⟦a 2|b|(t)b|⟧;⟦a 256|b {}|⟧', 'Ⓛ Ⓓ;Ⓛ', 'a Ⓓ;a ⒹⒹⒹ;b¤'], 'd_optlistsn': ['n⟦| {}| {a 1;}| {b;b;}| {c;}| 1| k=1⟧', 'n {Ⓛ Ⓓ;Ⓛ;}', '(¤)n {b;}'],
    'd_colls': ['⟦a 1|b 1|c 1|b 2⟧;⟦a 2|b 2|d 1|b 1⟧;⟦a 3|b 1|b 0|e⟧', 'b ⒹⒹⒹ;b ⒹⒹ;Ⓛ Ⓓ', 'Ⓛ Ⓓ;b Ⓓ;a Ⓓ;Ⓛ Ⓓ;b Ⓓ'],
}
REQ2 = 'a true;b {b 1;};c-c c-c=2'
WRAP2 = {
    'd_wraps2': ['n {' + x + ';}' for x in (
        '⟦a true|a|a 1|a null|a true 1|(t)a true|⟧;⟦b {b 1;}|b|b {}|b 1|b {b 1;b 2;}|b {c 1;}|⟧;⟦c-c c-c=2|c-c|c-c 2|c-c c_c=2|c-c c-c=2 d=3|⟧', REQ2 + ';⟦d|d {}|d {e 1;}|d {e 1;e 2;}|d {f;}|d 1⟧;⟦d|d {}|d {e 3;}|f g=1|f|f g=1 g=2|f 1⟧;⟦f g=3|h {h 1;}|h|j|j 1 null|j k=1|j null⟧',
        'a ¤rue;b {b Ⓓ;};c-c c-c=Ⓓ', REQ2 + ';d {e Ⓓ;Ⓛ Ⓓ;};Ⓛ {e Ⓓ;};f Ⓛ=Ⓓ', REQ2 + ';h {h Ⓓ;};j Ⓓ nul¤;h {Ⓛ Ⓓ;};j', REQ2 + ';k {x {Ⓛ Ⓓ;Ⓛ Ⓓ;};Ⓛ {a Ⓓ;};}', REQ2 + ';k⟦| {}| {x;}| {x {};}| {x 1;}| {x {a;};}| {x {a 1;};y;}| {x {a 1;b 2;};x {c 3;};}⟧', REQ2 + ';⟦a|b|c-c|k⟧⟦| 1| true| {}⟧', 'b {¤ 1;};a true;c¤c c¤c=1', REQ2 + ';Ⓛ')] + ['n', 'n 1 {' + REQ2 + ';}'],
    'd_wraps': ['a 1;⟦b|t-f|l|c⟧ ⟦null|"x"|true|3⟧;⟦b|t-f|l|c⟧ ⟦null|"x"|true|3⟧', 'a 1;l nul¤;Ⓛ 3', 'a 1;e {};f 1;g 1;h k=1;⟦i 1|j {}|k 1 {}|d v=1 {}|c {}|e 1⟧'],
}
FLAT2 = {
    'd_flatpre': ['n⟦| x=1| x=null| y=2| z=1⟧⟦| y=null| x=5⟧⟦| {m y=1;}| {m x=2 {n;};}⟧', 'n Ⓛ=Ⓓ {n Ⓛ=Ⓓ;}'],
    'd_tupflat': ['n⟦| 1| "x"⟧⟦| zz=1| b=2| zz=null| a=1⟧⟦| b=300| zz=-1| b=(u8)1⟧⟦| {deep 1;}| {deep 1;z 2;}| {z;}| {x 1;deep 2;y 3;}| {deep;}| {z 1;z 2;}⟧', 'n Ⓓ Ⓛ=Ⓓ {deep Ⓓ;Ⓛ Ⓓ;}', 'n zⓁ=Ⓓ {deeⓁ Ⓓ;z Ⓓ;}'],
    'd_enflat': ['⟦one|two|three|four⟧⟦| 1| a-b=1| a=1| b=1| zz=2| s="b"| s="z"| x=1⟧⟦| zz=3| b=2| y=null⟧⟦| {name 1;}| {deep 1;on;}| {x 1;y;}| {z 1;m 1;m 2;}| {one;}| {two 1 {leaf 1;};}| {three {x 1;};three {y;y;};}⟧', 'three Ⓛ=Ⓓ {Ⓛ Ⓓ;m Ⓓ;}', 'one Ⓛ=Ⓓ zⓁ=Ⓓ', 'two Ⓓ {Ⓛn;Ⓛeep Ⓓ;}'],
    'd_flatcp': ['n⟦| a=1| b=2| p=3| z=4| a=null| a="x"| b=256| 1⟧⟦| a=5| b=null| p=6| y=7⟧ {⟦x 1|y|z 1|k|q 1|⟧;⟦x 2|y|z 2|(t)y|k 1|q|⟧;}', 'n Ⓛ=Ⓓ Ⓛ=Ⓓ {Ⓛ Ⓓ;Ⓛ;}', 'n b=ⒹⒹⒹ {z ⒹⒹⒹ;}', 'n Ⓛ=Ⓓ {z Ⓓ;Ⓛ Ⓓ;}', '⟦n|(t)n⟧ {y;Ⓛ;}', 'n b=1 b=Ⓓ {z 1;z Ⓓ;}', 'n ⟦a|b|p|z⟧=(⟦u8|i8|t⟧)⟦1|null⟧ {y;}', 'n Ⓛ=nul¤ Ⓛ=(Ⓛ)null'],
    'd_flatstrict': ['n⟦| a=1| b=2| p=3| a=null| 1 2| b="x"⟧⟦| a=5| b=null| 6⟧⟦| {}| {x 1;z 2;}| {y;y;}| {q;}| {z 1;z 2;}| {x;}| {z;}⟧', 'n Ⓓ Ⓛ=Ⓓ {Ⓛ Ⓓ;}', 'n Ⓛ=¤¤ {y;}', 'n {Ⓛ;x Ⓓ;z Ⓓ;}', 'n b=Ⓓ a=Ⓓ b=Ⓓ {z Ⓓ;y;x Ⓓ;}', 'n ⟦a|b|p⟧=(⟦u8|i8|t⟧)⟦1|null⟧', 'n Ⓛ=nul¤ b=1', 'n Ⓛ=(Ⓛ)null'],
    'd_flatptr': ['n⟦| zz=1| t=2| u=-3| b=4| p=5| zz="x"| t=256⟧⟦| zz=null| t=null| u=7| b=8⟧ {⟦deep 1|up|z 2|q|⟧;⟦deep 3|up|z 4|up 1|(t)up|deep "x"⟧;}', 'n Ⓛ=Ⓓ Ⓛ=Ⓓ {Ⓛ Ⓓ;}', 'n zz=Ⓓ u=-Ⓓ t=Ⓓ b=Ⓓ {z Ⓓ;deep Ⓓ;up;}', 'n ⓁⓁ=Ⓓ {ⓁⓁ;}', 'n ¤¤ {up;}', 'n ⟦zz|t|u|b|p⟧=(⟦u8|i8|t|bool⟧)⟦1|null⟧ {up;}', 'n ⟦zz|t|b⟧=(Ⓛ8)1', 'n z=null {deep (⟦u8|i8⟧)1;}', 'n Ⓛ=nul¤'],
    'd_flatnode': ['n {url 1;⟦name|leaf|deep⟧ ⟦1|null|256|"x"⟧;⟦on|last⟧ ⟦|1|{}|{a;}⟧;}', 'n {url Ⓓ;on {Ⓛ;};}', 'n {url Ⓓ;leaf Ⓓ {};nam¤ 1;}'],
    'd_flatpr': ['n zz=¤¤ a=1', '(¤)n zz=1', 'n ⟦zz|x⟧=(⟦u8|i8|t⟧)⟦1|null⟧', 'n Ⓛ=(Ⓛ8)1'],
    'd_flatp': ['n ⟦zz|a-b|s|p|x⟧=(⟦u8|i8|t|string⟧)⟦1|null|"a"⟧'],
}
OPTS2 = {
    'd_split': ['n⟦| 1| null⟧⟦| "x"| null⟧⟦| "a"| null⟧⟦| p-p=1| p-p=null| q="b"| q=null⟧⟦| {}| {c;}| {c null;}| {c 1;}| {d;}| {d k=null;}| {e;}| {e 1;}| {f;}| {f {f;};}⟧', 'n nul¤ nul¤ p-p=nul¤', 'n {Ⓛ nul¤;}'],
    'd_opta': ['n⟦| "a"| null| 1| (t)null⟧⟦| true| null| 1⟧⟦| 3| null| 256⟧⟦| p=1| p=null| p=null q=null| q=4 p=(t)1⟧', 'n nul¤ nul¤ nul¤ p=nul¤', 'n "Ⓛ" true Ⓓ Ⓛ=Ⓓ Ⓛ=-Ⓓ', 'n null ¤¤ p=1', 'n p=Ⓓ ¤'],
    'd_optw': ['⟦|a|a 1|a null⟧;⟦|b|b null|b 1|b "x"⟧;⟦|c|c null|c 2;c null|d|d null|d 1;d;d null|c 1 2⟧', 'a nul¤;Ⓛ nul¤;Ⓛ Ⓓ', 'Ⓛ Ⓓ;Ⓛ;a ⒹⒹⒹ', 'a Ⓓ;Ⓛ ¤¤'],
    'd_argsc': ['n⟦| 1| 2 3| null| 256⟧⟦| 4| p=1| {}⟧⟦|;n| "x"⟧', 'n Ⓓ ⒹⒹⒹ 7', 'n ¤ 2 ¤'],
    'd_childdef': ['⟦|a 1|a|a null|b 2|b|(t)b 1⟧;⟦|c 1|c|d 1|d|d null|d "x"⟧;⟦|e|e 1 2|e null|e k=1|f|f a=1|f a=null|f 1⟧', '⟦|g|g {}|g {a 1;}|g 1|h|h h=1|h h=null|h h="x"|h 1⟧;⟦|i|i 1|i null|i 128⟧;⟦|i 2|g {b 3;c 4;}|h i=2⟧', 'Ⓛ Ⓓ;Ⓛ Ⓓ', 'Ⓛ;Ⓛ nul¤', 'e Ⓓ Ⓓ;f Ⓛ=Ⓓ;g {Ⓛ Ⓓ;}', 'd ⒹⒹⒹ;h Ⓛ=-ⒹⒹ', 'Ⓛ {Ⓛ Ⓓ;};h h=nul¤'],
    'd_childdefn': ['n⟦| {}| {a 1;}| {b 2;}| {c 1;d null;}| {d 5;e;}| {f;g;}| {i 1;h;}| 1| k=1| {a;}⟧', 'n {Ⓛ Ⓓ;Ⓛ Ⓓ;}', 'n {Ⓛ;}', 'n {d nul¤;i Ⓓ;}'],
    'd_args': ['n 1 true (Ⓛ)null', 'n ⟦1|null|(u8)null⟧ ⟦true|null⟧ ⟦null|(t)null|(string)null⟧ ⟦1|null|(i16)null⟧'], 'd_modes': ['n "x" "a" ⟦null|(t)null|(base64)null|(Ⓛ)null⟧ ⟦null|(t)null|(base64)null|(Ⓛ)null⟧'],
    'd_restopt': ['n ⟦1|null|(u8)null|(t)null⟧ ⟦2|null|(u8)3|k=null|k=(t)null|k=(bool)true⟧', 'n (Ⓛ8)null nul¤'],
}
ENUM2 = {
    'd_sv': ['⟦|(t)|(a)|(é)⟧⟦where|lists|prop-only|gen|maybe|plain|Where⟧⟦| 1| p=1| 256⟧⟦| {}| {a 1;b 2;}| {plain;gen 1;}| q=1| {b 1;b "x";}⟧⟦|\nplain|\nmaybe 1⟧', '(Ⓛ)where ⒹⒹⒹ', '/*⑶*/(Ⓛ)wher¤ Ⓓ;plain', 'lists {a Ⓓ;b Ⓓ;a Ⓓ;b Ⓓ;}', 'lists {Ⓛ Ⓓ;plai¤;gen Ⓓ;}', 'lists {lists {plain;a Ⓓ;};maybe Ⓓ;(Ⓛ)where 1;}', 'prop-only Ⓛ=Ⓓ p=-Ⓓ', 'prop-only p=⟦127|128|null|"x"⟧ Ⓛ=Ⓓ', 'ge¤ Ⓓ;maybe ⒹⒹⒹ', '(Ⓛ)maybe', 'maybe {Ⓛ Ⓓ;}', 'plain ¤¤', 'prop¤only;lists'],
    'd_newopt': ['⟦|(t)⟧n⟦| 1| 1 2| {}| k=1⟧⟦|;m|;m 1⟧', 'n ¤¤', 'n¤Ⓓ', '(¤)n'],
    'd_news': ['⟦a|b|c⟧⟦| 1| {}| null| k=1⟧;⟦(Ⓛ)a|c Ⓓ|b|a⟧'],
    'd_en': ['⟦typed|(a)typed|opt-leaf|(a)opt-leaf|loop|(t)loop⟧⟦| {}| 1| 1 {}| k=1⟧;⟦finish|finish {}|finish 1⟧'],
}
SPEC2 = {
    'd_speciall': ['⟦|(t)⟧⟦n|"n x"|é⟧⟦| 1| null| 1 2⟧⟦| {}| {a;}| {(é)b 1;c;}| k=1⟧⟦|\n|;|//c⟧', '⑵ Ⓓ', '("ⓁⓁ")r"Ⓛ⑵" Ⓓ {(Ⓛ)é;\n Ⓛ Ⓓ;}', '(¤)¤¤', '/*é*/(⑵)Ⓛ /*中*/Ⓓ;n', 'a {ⓇⓇb Ⓓ;}\nⓇc'],
    'd_newspan': ['⟦|(t)⟧⟦n|é⟧⟦| 1| 1 2⟧⟦| {}| {a;}| {(é)b 1;c;}| k=1⟧', '(⑶)⑵ Ⓓ {Ⓛ;}', 'n ⒹⒹⒹ'], 'd_newgen': ['⟦|(t)⟧⟦n|é⟧⟦| 1| 1 2⟧⟦| {}| {a;}| {(é)b 1;c;}| k=1⟧', '(⑵)⑶ Ⓓ {Ⓛ;}'],
}
ASTS = {
    'd_ast': ['⟦|(t)⟧n⟦| 1| k=1| (é)2| k=(t)3⟧⟦| {}| {a;}⟧⟦|\nb 1|\n(⟧', 'n ¤¤ k=(Ⓛ)"Ⓟ" {Ⓛ Ⓓ;}', '(⑵)⑶ ⓃⓃ {"Ⓟ";}', '¤¤¤', 'a Ⓛ=Ⓓ Ⓛ=Ⓓ;b {¤}'], 'd_astline': ['⟦|(t)⟧n⟦| 1| k=1| (é)2| k=(t)3⟧⟦| {}| {a;}⟧⟦|\nb 1|\n(⟧', 'n ¤¤ k=(Ⓛ)"Ⓟ" {Ⓛ Ⓓ;}', '⑵ "¤" {\n Ⓛ Ⓓ;\n}', '¤¤¤'],
    'd_astmixed': ['n ⟦1|(t)2|p=1|null⟧⟦| 3| (u)null| p=2| p=(t)3| q=3⟧⟦ {node;}| {node 1;node 2;}| {a;(t)node k=1;b;}|⟧', 'n ¤ {node Ⓓ;}', 'n (Ⓛ)Ⓓ Ⓛ=1 {nod¤ Ⓓ;node (Ⓛ)"⑵" {x;};}', 'n 1 ¤¤ {Ⓛ;node;Ⓛ;}'],
    'd_vals': ['n ⟦1|(t)2|null|(t)null⟧⟦| "x"| (u)null| null| p=(t)1⟧⟦| 3| p=null| p=(t)null| {}| q=1⟧', 'n ¤¤ (Ⓛ)"⑵" Ⓛ=(Ⓛ)Ⓓ', 'n (Ⓛ)¤ (Ⓛ)¤ (Ⓛ)¤'],
    'd_nodetree': ['n 256 p=2 {' + 'a p=1 300;' * 6 + 'b p=Ⓓ "¤";}', 'n p=¤ {' + 'a {b 256;};' * 12 + '}', 'n {' + 'a p=1 2 3;' * 6 + 'Ⓛ ¤ {b 300;c {d x=1;};};};⟦m|(t)m|m k=1|m {n "";n 1 2;}|m 256⟧', 'n ⒹⒹⒹ p=tru¤ {Ⓛ Ⓓ {c Ⓓ;};d;};a ⟦|1|null|{b;}|{b {c 2;};}⟧', '⟦n|(t)n|"n" 1|n 256|n 1 2|n k=1|n {a;}⟧⟦ {}| {(t)a;b 1 2;}| {a {b {c "x";};};}|⟧;m', 'é {é ¤¤;}', 'n;' * 20 + 'n ¤'],
    'd_node': ['⟦n|(t)n|n 1|n 256|n 1 2|n k=1|n {a;}⟧;⟦n|(t)n|n 1|n 256|n 1 2|n k=1|n {a;}⟧', 'n ¤¤', 'n ⒹⒹⒹ;n Ⓓ ¤'],
}
SAME = {'d_spanned': ['n "Ⓟ" "Ⓟ" Ⓓ Ⓓ', 'n "ⓁⓁ" r"ⓁⓁ" -Ⓓ Ⓓ', 'n "⑵" "⑵" 0xⒽⒽ ⒹⒹ', '"é" "Ⓟ" "ⓅⓅ" 1 1;n "a" /*⑶*/ "a" Ⓓ +Ⓓ', 'n "⑶" "⑷" 1 01']}
LOOK = {'d_lookup': ['n ¤=1 "¤"=2', 'n Ⓛ=1 ⓁⓁ=2 r"Ⓛ"=3', 'n ⑵=1 "⑵"=2', 'n ""=1 "Ⓟ"=2 ⟦a|ab|"zz"|r"a"|"\\u{61}"⟧=3', 'n Ⓛ=1 Ⓛ=2 Ⓛ=3 c=4']}
CTX = {p: {'d_ctx': ['⟦|(t)⟧n ⟦1|5|6|3|"x"|null|⟧⟦| p=3| p=7| p=null⟧⟦| 1| null| "x"| 2 4⟧⟦| {a;}| {bad;}| {bad;worse;}| {worse;}| {bad;c;bad;}⟧', 'n Ⓓ Ⓓ p=Ⓓ;n Ⓓ', 'n Ⓓ {ba¤;wors¤;}', 'n 1 {Ⓛ;ⓁⓁⓁ;}', 'n ⟦1|6⟧;n ⟦2|3|"x"⟧;n ⟦4|7⟧ {⟦bad|worse|b⟧;}', 'n Ⓓ ¤¤']} for p in (0, 1, 2)}
CBORT = ['⟦|(t)|(u8)⟧n⟦| 1| k=1| (é)2| k=(t)3| "s"| true| null| 1.5| 0x1f| 0b1| 0o7⟧⟦| {}| {a;}| {a {b 1;};}⟧⟦|\nb -1|;c⟧', 'n "Ⓟ⑶"', 'n Ⓛ=Ⓓ Ⓛ="Ⓛ"', '(ⓁⒹ)n (ⓁⒹⒹ)1', 'n 0xⒽⒽ -ⒹⒹ ¤ull', 'n 1.Ⓓ Ⓓ.5e-Ⓓ tru¤ {Ⓛ {Ⓛ;};}', '⑵ (⑶)"⑷"', 'a;b;c;d;e;f;g;h;i;j;k;l;m;n;o;p;q;r;s;t;u;v;w;x;y;z Ⓓ', 'n "' + 'x' * 30 + 'Ⓟ" "' + 'y' * 260 + '" ' + '1 ' * 25 + '\n' * 300 + 'b "Ⓟ"', '¤¤']

LONG, LONGKEY, LONGER = 'long-' * 15 + 'named', 'a-key-' + 'of-many-words-' * 7 + 'and-one', 'a-field-with-a-name-of-very-many-words-such-as-nobody-would-ever-want-to-type-out-in-full'
ODD = r'''"{b} \"q\"\\\n'"'''
ODDP = {
    'd_oddp': ['n ' + ODD + '=Ⓓ', 'n ""=Ⓓ é中😀=Ⓓ', 'n ' + LONG + '=ⒹⒹⒹ', 'n ' + LONG[:-1] + '¤=1', 'n ' + LONG + '¤=1', 'n a1-b2c3=Ⓓ match=Ⓓ', 'n a1¤b2c3=1', 'n a1-b2Ⓓ3=1', 'n r¤match=1', 'n "-1"=Ⓓ "null"=Ⓓ Some_Name=Ⓓ', 'n é中⑷=1',
               'n ' + ODD.replace("n'", "¤'") + '=1', 'n ' + ODD.replace('{b', '{¤') + '=1',
               'n⟦| ""=1| "é中😀"=2| "-1"=null| "-1"=3| null=1| "null"=4| match=256| Some_Name=5| Some-Name=6| some-name=7| a1-b2c3=8| a1-b2-c3=8| a-1-b-2-c-3=9| c=1⟧⟦| ' + LONG + '=null| ' + ODD + '=9| r#match=1| r#type=1| {}| 1| "-1"=(t)1⟧'],
    'd_oddr': [r'n⟦| 1| 2 3⟧⟦| "{} \"\\"=1| a=1| type=1⟧⟦| é=1| é=null| "é"=256⟧', r'n é=Ⓓ "{} \"\¤"=1', r'n "{} \"\\"=ⒹⒹⒹ ⑵=1', 'n "{} \\"\\\\"=1 é=2 ' + LONGKEY[:-1] + '⟦e|f⟧=Ⓓ'],
}
ODDK = {
    'd_oddk': ['fn Ⓓ;' + LONGER + ' Ⓓ', 'fn 1;' + LONGER[:-1] + '¤ 1', 'fn 1;a1¤b2c3', 'fn 1;"" Ⓓ;' + ODD + ' ⒹⒹⒹ', 'fn 1;é中😀 {}', 'fn 1;é中⑷ "{}"=Ⓓ', 'fn 1;é中😀 "{¤"=Ⓓ', 'fn 1;Some_Name {h Ⓓ;};Some¤Name {h 1;}', 'fn 1;' + ODD.replace("n'", "¤'") + ' 1', '"¤n" 1;""', 'fn 1;"¤" 1',
               '⟦|fn 1|fn|fn null|r#fn 1⟧;⟦|a1-b2c3|a1-b2c3 1|a1-b2-c3|' + LONGER + ' 1|' + LONGER + '|"" 1|""⟧;⟦|' + ODD + ' 1|é中😀 "{}"=1|é中😀|é中😀 1|Some_Name {h 1;}|Some_Name|some-name {h 1;}|a1-b2c3|"" 2|' + LONGER + ' 2⟧'],
    'd_oddkn': ['n {fn Ⓓ;' + LONGER + ' Ⓓ;a1¤b2c3;}', 'n {⟦fn 1|x⟧;⟦a1-b2c3|' + LONGER + ' 1|"" 1⟧;⟦' + ODD + ' 1|é中😀 "{}"=1|é 1|e 1|f 1|' + ODD + '⟧;}'],
}

# many elements, long values, deep nesting for the derived types
BIG_DEC = {
    'C11': {'d_string': ['n "' + X + '¤"', 'n r##"' + X + '"#"##', 'n "' + Y + '⑵"'], 'd_pathbuf': ['n "' + X + 'Ⓟ"'], 'd_arcpath': ['n "' + X + 'Ⓟ"'], 'd_arcstr': ['n "' + X + 'Ⓟ"'], 'd_rcstr': ['n "' + Y + 'Ⓟ"'], 'd_spanstr': ['\n' * 60 + X + ' "' + X + 'Ⓟ"'],
            'd_u8': ['n ' + '0' * 80 + 'ⒹⒹ', 'n 0b' + '0_' * 40 + '1111111Ⓓ', 'n 25⟦5|6⟧' + '_' * 70, 'n 1' + '0' * 60 + 'Ⓓ', 'n 255;' * 40 + 'n 25Ⓓ'], 'd_i64': ['n -' + '0' * 70 + '922337203685477580Ⓓ', 'n -0x' + '0' * 60 + '800000000000000Ⓗ'], 'd_u64': ['n 0o' + '0' * 60 + '177777777777777777777Ⓓ', 'n 0b' + '1' * 63 + 'Ⓓ'],
            'd_f64': ['n ' + '1' * 60 + '.Ⓓ', 'n 0.' + '0' * 80 + 'Ⓓ', 'n 1e' + '0' * 60 + 'Ⓓ', 'n 1' + '0_' * 60 + '.5e-5⟦9|8⟧'], 'd_f32': ['n 1' + '0' * 40 + '.0', 'n 0.' + '0' * 60 + 'Ⓓ', 'n ' + '9' * 30 + '.Ⓓe-20']},
    'C12': {'d_bytes': ['n (base64)"' + 'QUJD' * 50 + 'ⒷⒷ=="', 'n "' + Y + '¤"', 'n (base64)"' + 'QUJD' * 50 + 'ⒷⒷ"'], 'd_word': ['n "' + 'red' * 40 + 'Ⓛ"', 'n "x11-color' + ' ' * 60 + '"'], 'd_modes': ['n "' + X + '" "' + 'b' * 70 + 'Ⓛ" (base64)"' + 'AAAA' * 40 + 'eA=="'], 'd_modesv': ['n ' + '(base64)"QQ==" ' * 40 + ' '.join('k%d="b"' % i for i in range(30)) + ' (base64)"ⒷQ==" Ⓛ="Ⓛ"']},
    'C13': {'d_exact': ['n q-r=1 ' + ' '.join('p=%d' % i for i in range(60)) + ' Ⓛ=1', 'n q-r=1 ' + 'p=1 ' * 40 + '⟦1|2 3|z=1⟧', 'n q-r=1 ' + X + '=Ⓓ', 'n q-r=1;' * 40 + 'n⟦ q-r=1| 1| q-r=1 2 3|⟧'],
            'd_nothing': ['n;' * 60 + 'n⟦| 1⟧', X + '⟦| 1| {a;}⟧'], 'd_args': ['n 1 true "x" ' + '1 ' * 60 + '⟦2|"x"|k=1⟧', 'n ⟦1|⟧ ' + '/-2 ' * 40 + 'true'], 'd_kids': ['one 1;' + 'm 1;' * 60 + '⟦m 2|z|one 2|flag-it;flag-it|m⟧', 'one 1;' + 'o 1;' * 30 + 'Ⓛ 1'], 'd_deep': ['n {' * 20 + '⟦kids {c;}|kids {c;c;}|n 1|n 256|kids {z;}|kids;kids⟧' + ';}' * 20], 'd_wraprest': ['b 1;' * 60 + '⟦a 1|a 1;a 2|b "x"|c k=1⟧']},
    'C14': {'d_args': ['n Ⓓ true "' + X + '" ' + ' '.join('%d' % i for i in range(-60, 60)) + ' ⒹⒹ', 'n 1 true "x" ' + '3276Ⓓ ' + '1 ' * 60], 'd_props': ['n plug-name="' + X + '" ' + ' '.join('k%d=%d' % (i, i) for i in range(60)) + ' k⟦0|17|59|60⟧=Ⓓ c=Ⓓ', 'n plug-name="a" ' + ' '.join('c=%d d=%d' % (i, i) for i in range(40)) + ' Ⓛ=Ⓓ'],
            'd_pairs': ['n ' + ' '.join('%d k%d="v%d"' % (i, i, i) for i in range(40)) + ' Ⓛ=Ⓓ Ⓓ', 'n ' + X + 'Ⓛ=1 ' + X + 'Ⓛ=2'], 'd_keylow': ['n ' + ' '.join('k%s=1' % ('x' * i) for i in range(30)) + ' Ⓛ=Ⓓ'], 'd_restopt': ['n ' + 'null 1 ' * 40 + 'nul¤ ' + ' '.join('%s=null' % k for k in 'abcdefghij') + ' Ⓛ=true'], 'd_tuple': ['n ' + 'k="a" ' * 40 + 'Ⓓ k="Ⓛ" true']},
    'C15': {'d_kids': ['one 1;' + 'm 1;o 2;w 3;' * 40 + 'Ⓛ Ⓓ;m Ⓓ', 'm 1;' * 60 + 'flag-it;one Ⓓ'], 'd_deep': ['n {' * 24 + 'Ⓛ Ⓓ' + ';}' * 24, 'n {' + 'n 1 {n 2;};' * 40 + 'Ⓛ Ⓓ;}', 'n {kids {' + 'd 1;e;' * 40 + 'd Ⓓ;Ⓛ;};}'], 'd_kidsnode': ['n {one 1;m 2;};' * 30 + 'n {one Ⓓ;m Ⓓ;m Ⓓ;}'], 'd_wraps': ['a 1;c ' + '1 ' * 80 + 'Ⓓ;e ' + ' '.join('k%d=1' % i for i in range(40)) + ' Ⓛ=Ⓓ;g {' + 'x 1;' * 40 + 'x Ⓓ;};h {' + 'x 1;y 2;' * 20 + 'Ⓛ Ⓓ;}', 'a 1;' + 'j 1;' * 80 + 'j Ⓓ'],
            'd_wraprest': ['b 1 2;' * 60 + 'Ⓛ Ⓓ Ⓓ'], 'd_colls': ['a 1;b 2;c 3;' * 30 + 'Ⓛ Ⓓ', ''.join('b %d;' % i for i in range(99, 30, -1)) + 'b Ⓓ']},
    'C16': {'d_flatcp': ['n ' + ' '.join('k%d=1' % i for i in range(40)) + ' Ⓛ=Ⓓ {' + 'm 1;' * 40 + 'Ⓛ Ⓓ;}'], 'd_flatpr': ['n ' + ' '.join('k%d=1' % i for i in range(60)) + ' zz=Ⓓ zⓁ=Ⓓ'], 'd_flatbox': ['a 1;' * 60 + 'deep Ⓓ;b Ⓓ;Ⓛ Ⓓ'], 'd_flatnode': ['n {url 1;deep 2;};' * 30 + 'n {url Ⓓ;on;leaf Ⓓ;dee¤ Ⓓ;}'], 'd_flatp': ['n ' + 'zz=1 a-b=2 ' * 30 + 'zz=Ⓓ s="Ⓛ"']},
    'C17': {'d_restopt': ['n ' + 'null ' * 80 + 'nul¤'], 'd_props': ['n plug-name="a" ' + 'c=1 d=null ' * 30 + 'Ⓛ=nul¤'], 'd_opt': ['n 1 "x";' * 20 + 'n nul¤ nul¤'], 'd_kids': ['one 1;' + 'm 1;' * 40 + 'Ⓛ Ⓓ'], 'd_childdefn': ['n;' * 30 + 'n {Ⓛ Ⓓ;}']},
    'C18': {'d_en': ['finish;' * 60 + 'finis¤', 'loop {' * 16 + 'loop Ⓓ' + ';}' * 16, 'http-get k=1 1 2;' * 20 + 'http-get Ⓛ=1 Ⓓ Ⓓ', 'loop 1 {' + 'finish;opt-leaf 1;' * 30 + 'Ⓛoop;}', 'print-string' * 12 + ' 1', 'create "' + X + 'Ⓟ"'], 'd_news': ['a 1;b;' * 30 + 'Ⓛ Ⓓ'], 'd_sv': ['lists {' * 12 + 'plain;a Ⓓ' + ';}' * 12, 'lists {' + 'a 1;b 2;' * 30 + 'Ⓛ Ⓓ;}']},
    'C19': {'d_special': ['(' + X + ')' + X + 'Ⓛ 1', '\n' * 60 + ' ' * 60 + '(t)"' + Y + '¤" 1 {' + 'a;' * 20 + '(Ⓛ)b;}', 'n {a {b {c {d {e {f {g Ⓓ;};};};};};};}'], 'd_checked': ['(aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaⓁ)Ⓛ'], 'd_speciall': ['\n' * 60 + '\t' * 20 + '(t)中¤ 1 {' + '\r\na;' * 20 + '(Ⓛ)b;}']},
    'C21': {'d_ast': ['n ' + '1 ' * 60 + ' '.join('k%d=(t)1' % i for i in range(40)) + ' Ⓛ=¤ {' + 'a {b;};' * 20 + '}', 'a {' * 20 + 'b ¤' + ';}' * 20, 'a "' + X + 'Ⓟ" ' + X + 'Ⓛ=1;' + 'b;' * 60], 'd_vals': ['n ' + '(t)1 null ' * 40 + 'p=¤'], 'd_astmixed': ['n 1 {' + 'node 1;' * 40 + 'nod¤;}'], 'd_node': ['n 1;' * 40 + 'n ⒹⒹⒹ']},
}
BIG_DEC['C20'] = {e: BIG_DEC[p][e] for p, e in (('C13', 'd_exact'), ('C13', 'd_args'), ('C13', 'd_kids'), ('C13', 'd_deep'), ('C13', 'd_wraprest'), ('C16', 'd_flatnode'), ('C18', 'd_en'), ('C18', 'd_sv'), ('C11', 'd_u8'), ('C12', 'd_bytes'), ('C12', 'd_modesv'), ('C19', 'd_special'))}
BIG_DEC['C20']['d_u8'] = BIG_DEC['C20']['d_u8'] + ['n ⟦255|256|"x"⟧;' + 'n 300;' * 30 + 'n 25Ⓓ', 'n "' + X + 'Ⓟ";n (' + X + ')1']
BIG_DEC['C20']['d_nothing'] = ['n 1;' * 20 + 'n⟦ {a;}| k=1|⟧']
for _d in CTX.values():
    _d['d_ctx'] += ['n 1;' * 20 + 'n ⟦5|6|3|1⟧ {' + 'bad;worse;' * 10 + 'Ⓛ;}', 'n 5;n 3;n 6;' * 10 + 'n Ⓓ']
BIG_CBOR = ['n "' + X + 'Ⓟ" ' + X + 'Ⓛ=1', '(' + X + ')n', 'a {' * 20 + 'b Ⓓ' + ';}' * 20, 'a;' * 300 + 'Ⓛ', 'n ' + ' '.join('k%d=1' % i for i in range(60)) + ' Ⓛ=2', 'n ' + '1 ' * 280 + 'Ⓓ', 'n 0x' + 'f' * 70 + 'Ⓗ', '/*' + 'é' * 200 + '*/n Ⓓ {a;}', '\n' * 300 + '\t' * 60 + 'b "Ⓟ" {c;}']
LOOK['d_lookup'] += ['n ' + ' '.join('k%d=%d' % (i, i) for i in range(60)) + ' ¤=1', 'n ' + X + '=1 ' + X + 'Ⓛ=2 ' + X[:-1] + 'Ⓛ=3']


def groups(*ds, reach={}, param=0, only=None):
    """One group per entry; every entry has to accept and to reject something."""
    r = []
    for d in ds:
        for e, ts in d.items():
            r.append(dict(entry=e, param=param, reach=reach.get(e, [0, 1]), quick=ts))
    return r


def merge(*ds):
    r = {}
    for d in ds:
        for k, v in d.items():
            r[k] = unique(r.get(k, []), v)
    return r


def few(d, n):
    """The last n templates of each entry (the most symbolic ones) and the first."""
    return {e: unique(ts[:1], ts[-n:]) for e, ts in d.items()}


NEAR = re.compile(r'^(d_(?!lookup|ctx|typename|spanned|hash)|[sl]_(ast|span|total)$)')


def near(t, most=40):
    """The template with any ASCII character in place of one of its own, or inserted before it."""
    if len(t) > 70 or '§' in t:
        return []
    combos, depth, own = 1, 0, []
    for i, c in enumerate(t):
        if c == '⟦':
            depth += 1
            n = 1
        elif c == '⟧':
            depth -= 1
            combos *= n
        elif depth:
            n += c == '|'
        elif ord(c) < 128:
            own.append(i)
        elif c != 'é':
            combos *= 3
    if combos > most:
        return []
    return [(combos, u) for i in own for u in (t[:i] + '¤' + t[i + 1:], t[:i] + '¤' + t[i:])]


def weight(t, pick=2):
    """About how many kinds of input a template has."""
    n = 1
    for c in re.sub('⟦.*?⟧', '', t):
        n *= 1 if ord(c) < 128 or c in 'é中' else 6 if c == '¤' else pick
    for c in re.findall('⟦.*?⟧', t):
        n *= c.count('|') + 1
    return n


def short(e, t):
    """Long numbers of floating point types are hard for the solver."""
    return e in ('d_f32', 'd_f64') and len(t) > 20


def nearby(groups, quick):
    """In the quick tier only those next to nearly concrete templates, at most 240 of them."""
    r = [(c, g['entry'], g.get('param', 0), u) for g in groups if NEAR.match(g['entry']) for t in g['quick'] if not (quick and '¤' in t) and not short(g['entry'], t) for c, u in near(t, 3 if quick else 40)]
    r = sorted(set(r))
    return [x[1:] for x in (r[::(len(r) + 239) // 240] if quick and r else r)]


WORD = re.compile(r'"[^"]*"|[A-Za-z_][A-Za-z0-9_-]*')


def quoted(groups, quick):
    """For every word or string of an entry, its simplest template with the word quoted and any ASCII character before or after it."""
    best = {}
    for g in groups:
        if not g['entry'].startswith('d_') or not NEAR.match(g['entry']):
            continue
        for t in g['quick']:
            if len(t) > 70:
                continue
            cost = weight(re.sub('⟦.*?⟧', 'é', t)) * 4 ** t.count('⟦')
            for w in WORD.finditer(re.sub('⟦.*?⟧', lambda x: '\0' * len(x.group()), t)):
                x = w.group().strip('"')
                if WORD.fullmatch(x) and w.group() not in ('true', 'false', 'null', 'r') and (w.start() == 0 or t[w.start() - 1] in ' ;{(\n' or w.group()[0] == '"' and t[w.start() - 1] in '=)') and (w.end() == len(t) or ord(t[w.end()]) < 128):
                    k = (g['entry'], g.get('param', 0), x, t[w.end():w.end() + 1] == '=', t[w.start() - 1] == '=')
                    best[k] = min(best.get(k, (1 << 60,)), (cost, t, w.start(), w.end()))
    return [(k[0], k[1], t[:a] + q + t[b:]) for k, (c, t, a, b) in sorted(best.items()) if c <= (64 if quick else 1000) for q in ('"¤%s"' % k[2], '"%s¤"' % k[2])]


VALUE = re.compile(r'(?<=[ =)])(?:r?"[^"]*"|[-+]?[0-9Ⓓ][0-9Ⓓ._e]*|null|true|false|¤+|(?<= )Ⓛ+(?=[; ]|$))(?=[; \n]|$)')


def hide(t):
    """The template with everything in strings and choices blanked out."""
    return re.sub(r'⟦.*?⟧|r?"[^"]*"', lambda x: '"' * len(x.group()), t)


def grown(groups, quick):
    """A type name, a node, an argument, a property or children added at each node of a template."""
    r = []
    for g in groups:
        if not g['entry'].startswith('d_') or not NEAR.match(g['entry']):
            continue
        for t in g['quick']:
            cost = weight(re.sub('⟦.*?⟧', '', t), 3) * 9 ** t.count('⟦')
            if len(t) > 70 or t.count(';') > 10 or cost > (20 if quick else 200) or short(g['entry'], t):
                continue
            for x in re.finditer(r'(?:^|(?<=[;{\n]))([^;{}()\n /\\]+)', hide(t)):
                a, b = x.span()
                e = b + len(re.match(r'[^;{}\n]*', hide(t)[b:]).group())
                r += [(cost, g['entry'], g.get('param', 0), u) for u in (
                    t[:a] + '⟦(t)|("")⟧' + t[a:], t[:a] + '"¤"⟦| 1| {}⟧;' + t[a:], t[:a] + t[a:e].rstrip() + '⟦|{}|{a;}⟧;' + t[a:] if cost < 4 else t, t[:b] + '⟦ 1| ""| null| k=1| ""=1⟧' + t[b:],
                    t[:e].rstrip() + '⟦ 1| -1.5| "x"| null| (t)1| k=null| ""=1| {}| {k;}| {"";}⟧' + t[e:].lstrip(' '), t[:e].rstrip() + ' "¤"=1' + ' ' * (t[e:e + 1] == '{') + t[e:])]
    r = sorted(set(r))
    return [x[1:] for x in (r[::(len(r) + 239) // 240] if quick and r else r)]


def valued(groups, quick):
    """Another value in place of each of a template."""
    r = []
    for g in groups:
        if not g['entry'].startswith('d_') or not NEAR.match(g['entry']):
            continue
        for t in g['quick']:
            h = re.sub('⟦.*?⟧', lambda y: '\0' * len(y.group()), t)
            cost = weight(t)
            if len(t) <= 100 and cost <= (24 if quick else 1000) and not short(g['entry'], t):
                r += [(cost, g['entry'], g.get('param', 0), t[:x.start()] + '⟦""|" "|"é"|0|-0|1.5|null|false|(u8)1|("")""|(t)null|(base64)""|r"b"|"b"|bare⟧' + t[x.end():]) for x in VALUE.finditer(h)]
    r = sorted(set(r))
    return [x[1:] for x in (r[::(len(r) + 79) // 80] if quick and r else r)]


B_PARSE = 'symbolic input: every text that is an instance of one of the templates listed under inputs (see legend), parsed with the real parser; all paths of each template are explored unless listed under incomplete'

PROPS = {
    'C01': dict(features=['total'], bounds=B_PARSE + '; nesting of children up to 20 (30 in the thorough tier), of comments up to 12 (30)', groups=[
        dict(entry='s_total', reach=[0, 1], quick=TOTAL, thorough=TOTAL_T), dict(entry='l_total', reach=[0, 1], quick=TOTAL_L, thorough=[t for t in STRUCT_T])]),
    'C02': dict(features=['span'], bounds=B_PARSE, groups=[dict(entry='s_ast', reach=[0, 1], quick=unique(SMALL, CONTEXT, TOKENS, BIG_TREE), thorough=STRUCT_T)]),
    'C03': dict(features=['span'], bounds=B_PARSE, groups=[dict(entry='s_ast', reach=[0, 1], quick=BLANKS + BIG_BLANK, thorough=BLANKS_T)]),
    'C04': dict(features=['span'], bounds=B_PARSE, groups=[dict(entry='s_ast', reach=[0, 1], quick=STRINGS + BIG_STR, thorough=STRINGS_T)]),
    'C05': dict(features=['span'], bounds=B_PARSE, groups=[dict(entry='s_ast', reach=[0, 1], quick=NUMBERS + BIG_NUM, thorough=NUMBERS_T)]),
    'C06': dict(features=['span'], bounds=B_PARSE, groups=[dict(entry='s_ast', reach=[0, 1], quick=IDENTS + BIG_ID, thorough=IDENTS_T)]),
    'C07': dict(features=['span'], bounds=B_PARSE, groups=[dict(entry='s_ast', reach=[0, 1], quick=DUPS + BIG_DUP, thorough=DUPS_T)]),
    'C08': dict(features=['span'], bounds=B_PARSE, groups=[dict(entry='s_span', reach=[0, 1], quick=SPANS + BIG_SPAN, thorough=SPANS_T)]),
    'C09': dict(features=['line'], bounds=B_PARSE, groups=[dict(entry='l_span', reach=[0, 1], quick=LINES + BIG_SPAN, thorough=LINES_T)]),
    'C10': dict(features=['errs'], bounds=B_PARSE, groups=[
        dict(entry='s_unclosed', reach=[0], quick=UNCLOSED + BIG_UN), dict(entry='s_err', reach=[0, 1, 2, 3, 4, 5, 6, 7, 8, 9], quick=ERR + BIG_ERR, thorough=ERR_T),
        dict(entry='b_err', reach=[0, 1], quick=SMALL[:3] + CONTEXT[1:14:2] + [t for t in UNCLOSED if '⑶' not in t and '⑵' not in t], thorough=SMALL + CONTEXT)]),
}

B_DEC = 'symbolic input: every text that is an instance of one of the templates listed under inputs (see legend), decoded with the real parser and the code the derives generate for the types in harness/src/p_*.rs; all paths of each template are explored unless listed under incomplete'
O_DEC = 'other derived types than those of the harness; ' + OUTSIDE


def bigger(prop, gs):
    big = BIG_DEC.get(prop, {})
    for e in big:
        own = [g for g in gs if g['entry'] == e]
        if not own:
            gs.append(dict(entry=e, param=gs[0]['param'], reach=[], quick=[]))
            own = gs[-1:]
        own[0]['quick'] = unique(own[0]['quick'], big[e])
    return gs


def decodes(feats, gs):
    return dict(features=feats, bounds=B_DEC, outside=O_DEC, groups=gs)


PROPS.update({
    'C11': decodes(['scalar'], bigger('C11', groups(SCAL, reach={'d_lit': [0, 3]}))),
    'C12': decodes(['scalar', 'fields'], bigger('C12', groups(WORDS))),
    'C13': decodes(['fields', 'kids'], bigger('C13', groups(ODDP, ODDK, KIDS2, WRAP2, {k: ARGS2[k] for k in ('d_tuplep', 'd_tuplel', 'd_tuple')}, {k: FLAT2[k] for k in ('d_flatstrict', 'd_flatcp')}, {k: merge(ARGS, ARGS2)[k] for k in ('d_exact', 'd_nothing', 'd_args', 'd_props')}, KIDS, {'d_wraps': WRAP['d_wraps'][2:5] + WRAP['d_wraps'][-4:], 'd_flat': FLAT['d_flat'][:1] + FLAT['d_flat'][-3:], 'd_flatp': FLAT['d_flatp'][:2]}))),
    'C14': decodes(['fields'], bigger('C14', groups(merge(ARGS, ARGS2), ODDP, reach={'d_pairs': [0]}))),
    'C15': decodes(['kids'], bigger('C15', groups(KIDS, KIDS2, ODDK, merge(WRAP, WRAP2)))),
    'C16': decodes(['kids'], bigger('C16', groups(merge(FLAT, FLAT2)))),
    'C17': decodes(['scalar', 'fields', 'kids'], bigger('C17', groups(merge(OPTS, OPTS2)))),
    'C18': decodes(['enum'], bigger('C18', groups(merge(ENUM, ENUM2), {k: SPEC2[k] for k in ('d_newspan', 'd_newgen')}))),
    'C19': decodes(['enum', 'ast'], bigger('C19', groups(SPECIAL, SPEC2))),
    'C20': decodes(['scalar', 'fields', 'kids', 'enum'], bigger('C20', groups(few(SCAL, 1), few(WORDS, 2), few(merge(ARGS, ARGS2), 2), few(merge(KIDS, KIDS2), 3), few(merge(WRAP, WRAP2), 3), few(merge(FLAT, FLAT2), 2), few(merge(OPTS, OPTS2), 1), few(merge(ENUM, ENUM2), 4), few(ODDP, 2), few(ODDK, 2), {k: few(merge(SPECIAL, SPEC2), 2)[k] for k in ('d_special', 'd_checked', 'd_opttyped', 'd_newspan')}, param=1, reach={'d_lit': [0], 'd_pairs': [0], 'd_kidsnode': [0, 1, 2], 'd_en': [0, 1, 2]}))),
    'C21': decodes(['ast'], bigger('C21', groups(ASTS))),
    'C22': decodes(['ast'], bigger('C22', groups(CTX[0], param=0, reach={'d_ctx': [1]}) + groups(CTX[1], param=1, reach={'d_ctx': [0, 1, 2]}) + groups(CTX[2], param=2, reach={'d_ctx': [0, 1, 2]}))),
    'C23': decodes(['ast'], bigger('C23', groups(SAME, LOOK, {'d_typename': SPECIAL['d_typename']}))),
    'C24': dict(features=['cbor'], bounds='symbolic input: every document that is an instance of one of the templates, parsed, encoded and decoded with the real code', groups=[dict(entry='c_span', reach=[0], quick=CBORT + BIG_CBOR), dict(entry='c_line', reach=[0], quick=[CBORT[0], 'n "ⓅⒸ" 1'] + CBORT[2:6] + BIG_CBOR[-1:])] + [dict(entry='c_cut', param=k, reach=[0], quick=CBORT[1:3] + CBORT[:1]) for k in (1, 2, 5, 9)] + [dict(entry='c_raw', reach=[0], quick=['']), dict(entry='c_rawline', reach=[0], quick=['']), dict(entry='c_rawline', param=1, reach=[0], quick=[''])]),
})
