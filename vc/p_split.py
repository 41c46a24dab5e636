"""S01, S02: squashSpaces, split, splitVec."""
import terms as T
from sym import Engine, Template
from contracts import *

SPECS = ['split.rs']
SQUASH = Contract('SoDa::squashSpaces', 'squash', 'Seq<int>')
SPLIT = Contract('SoDa::split', 'split_spec', 'Seq<Seq<int>>')
SPLITV = Contract('SoDa::splitVec', 'split_spec', 'Seq<Seq<int>>')

SQ_HINT = 'sq_front({S}); sq_back({S}); sq_mid({S});'
SQ_TEMPLATES = [
    Template('squash({S:str!}) == squash({S.entry})', hint=SQ_HINT),
    Template('{S:str!}.len() > 0 ==> {S}[0] != 32'),
    Template('{S:str!}.len() > 0 ==> {S}[{S}.len() - 1] != 32'),
    Template('tidy_to({S:str!}, {i:int!})'), Template('nodbl_to({S:str!}, {i:int!})'),
    Template('sq_go({S:str=}, {i:int!}, {b:bool!}, {O:str!}) == squash({S})', hint='if {O}.len() == 0 {{ sq_pend_empty({S}, {i} + 1, {O}); }}'),
    Template('{b:bool!} ==> {O:str!}.len() > 0'), Template('!{b:bool!} ==> {O:str!}.len() > 0'),
    Template('sq_go({S:str=}, {i:int!}, !{b:bool!}, {O:str!}) == squash({S})'),
    Template('sq_go({S:str=}, {i:int!}, {O:str!}.len() > 0 && {O}.last() == 32, trimlast({O})) == squash({S})'),
]
SP_TEMPLATES = [
    Template('sp_go({S:str=}, {D:str=}, {n:bool=}, {i:int!}, Seq::empty(), {L:Seq<Seq<int>>!}) == sp_go({S}, {D}, {n}, 0, Seq::empty(), Seq::empty())',
             hint='sp_run({S}, {D}, {n}, {i}, {L});'),
    Template('sp_go({S:str=}, {D:str=}, {n:bool=}, {i:int!}, {C:str!}, {L:Seq<Seq<int>>!}) == sp_go({S}, {D}, {n}, 0, Seq::empty(), Seq::empty())'),
    Template('sp_go({S:str=}, {D:str=}, {n:bool=}, {i:int!}, {S}.subrange({b:int!}, {i}), {L:Seq<Seq<int>>!}) == sp_go({S}, {D}, {n}, 0, Seq::empty(), Seq::empty())'),
]
COPY_TEMPLATES = [Template('{L:Seq<Seq<int>>!} =~= {M:Seq<Seq<int>>=}.subrange(0, {i:int!})'),
                  Template('{L:Seq<Seq<int>>!} + {M:Seq<Seq<int>>!} =~= {L.entry} + {M.entry}')]

def goals_S01(P):
    prog = P('src/Split.cxx')
    fn = prog.one('SoDa::squashSpaces')
    eng = Engine(prog, contracts=[], templates=SQ_TEMPLATES)
    return [Goal('squashSpaces', fn, eng, pure_goal(fn, SQUASH, lambda ex, a, r: [raw('sq_tidy({0}); squash_is_tidy({1});', r, a[0])]), SPECS)]

def goals_S02(P):
    prog = P('src/Split.cxx')
    g = []
    fn = prog.one('SoDa::split')
    g.append(Goal('split', fn, Engine(prog, contracts=[SQUASH], templates=SP_TEMPLATES), pure_goal(fn, SPLIT), SPECS))
    fn = prog.one('SoDa::splitVec')
    g.append(Goal('splitVec', fn, Engine(prog, contracts=[SQUASH, SPLIT], templates=SP_TEMPLATES + COPY_TEMPLATES), pure_goal(fn, SPLITV), SPECS))
    return g + goals_S01(P)
