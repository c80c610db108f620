"""P34: a parser made of parsers does exactly what its parts do, in order, and takes nothing when an alternative fails."""
import obs, ct
SPEC = {
 'explanation': 'Every combinator is run over the lowered source with arbitrary input and with sub-parsers that consume an arbitrary amount and succeed or fail at will; which sub-parser runs, where it starts, what the combination returns and where the input ends up must be what the combinator promises.',
 'assumptions': ['inputs up to three tokens for the combinators', 'a repeated sub-parser that succeeds consumes something'],
}
def setup(s, e): e.peel = 70; e.recmax = 20
def check(ck):
    ck.units = ['witness/parse.cc', 'witness/chargroup.cc', 'kj/parse/common.h', 'kj/parse/char.h']
    obs.Suite(ck, 'parse.cc', 'parse:exact', merge=['kj/array.c++', 'kj/string.c++'], setup=setup, peel=70, recmax=20, heap=True, home=r'kj/parse/')
    ck.need('parse:exact', 20)
    ct.asserts(ck, 'chargroup.cc', 'parse:characters', 'kj/parse/char.h (kj::parse::CharGroup_)')
    ck.need('parse:characters', 10)
