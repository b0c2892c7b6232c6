"""Which function is decided against which reference definition, for which properties."""

class Job:
    def __init__(s, code, spec, props, sig=None, opaque=(), chan=None, ignore=(), cost=1, pure=(), keeps=(), at=None, **kw):
        # opaque: not looked into; pure: of those, the ones that only answer; keeps: those that do something but leave the value as it is
        s.pure, s.keeps = tuple(pure), tuple(keeps)
        s.cost, s.at = cost, at
        s.code, s.spec, s.props, s.sig = code, 'spec::' + spec, props.split(), sig
        s.opaque, s.chan, s.ignore, s.kw = tuple(opaque), chan, ignore, kw
        s.name = code + ('(%s)' % sig if sig else '') + (' of %s' % at if at else '')

J = []
def job(*a, **k): J.append(Job(*a, **k))

# ---- guards
job('Constraint::satisfy', 'satisfy', 'P01')
job('Constraint::operator()', 'order', 'P01')
job('toBool', 'isEq', 'P01')
job('ConstraintMaker::operator<', 'mkLt', 'P01')
job('ConstraintMaker::operator<=', 'mkLe', 'P01')
job('ConstraintMaker::operator>', 'mkGt', 'P01')
job('ConstraintMaker::operator>=', 'mkGe', 'P01')
job('widen', 'widen', 'P01 P08 P09')
job('operator<<', 'printOrder', 'P01 P24', sig='const Constraint::Order &')
job('operator<<', 'printConstraint', 'P01 P24', sig='const Constraint &')
# ---- zones
job('operator+', 'plus', 'P02 P15 P42', sig='const std::pair<double, bool> &, const std::pair<double, bool> &')
job('operator-', 'minusD', 'P02', sig='const std::pair<double, bool> &, const std::pair<double, bool> &')
job('operator+=', 'plusAssign', 'P02 P15', sig='std::pair<double, bool> &')
for c, s in [('getNumOfVar', 'getNumOfVar'), ('close1', 'close1'), ('tighten', 'tighten'), ('reset', 'reset'), ('elapse', 'elapse'),
             ('canonize', 'canonize'), ('isSatisfiable', 'isSatisfiable'), ('abstractize', 'abstractize'), ('makeUnsat', 'makeUnsat'),
             ('operator==', 'equal'), ('intersectionAssign', 'intersectionAssign'), ('cutVars', 'cutVars')]:
    job('Zone::' + c, s, 'P02' + (' P27' if c in ('elapse', 'canonize', 'isSatisfiable', 'abstractize', 'operator==', 'reset', 'tighten') else '') + (' P42' if c in ('close1', 'tighten', 'reset', 'elapse', 'canonize', 'abstractize', 'operator==') else ''))
job('Zone::zero', 'zero', 'P02 P18 P42', retfields=('value',))
job('Zone::universal', 'universal', 'P02 P18', retfields=('value',))
job('Zone::makeGuard', 'makeGuard', 'P01 P02')
# ---- intervals
job('Interval::Interval', 'ctor0', 'P15', sig='')
job('Interval::Interval', 'ctor1', 'P15', sig='int')
job('Interval::Interval', 'ctor2', 'P15', sig='int, int')
job('Interval::Interval', 'ctorB', 'P15', sig='std::pair<double, bool>, std::pair<double, bool>')
job('Interval::contain', 'contain', 'P15')
job('operator&&', 'meet', 'P15')
job('land', 'land1', 'P15', sig='const Interval &')
job('land', 'land2', 'P15', sig='^std::vector.*, const std::vector')
job('Interval::plus', 'plus1', 'P15 P30')
job('Interval::plus', 'plusOpen', 'P15', seeds=4000)
job('plus', 'plusSets', 'P15')
job('operator+', 'sum', 'P15', sig='Interval, const Interval &')
job('operator+=', 'addAssign', 'P15', sig='^std::vector.*, const std::vector')
job('operator<<', 'print', 'P15', sig='const Interval &')
# ---- the zone of one match attempt
IZ = 'IntermediateZone::'
job(IZ + 'IntermediateZone', 'izFromInterval', 'P04', sig='^const Interval &')
job(IZ + 'IntermediateZone', 'izFromZone', 'P04', sig='^Zone, (unsigned long|std::size_t)')
job(IZ + 'deallocate', 'deallocate', 'P04')
job(IZ + 'toAns', 'toAns', 'P04 P03', opaque=(r'^Zone::zero$',))
job(IZ + 'alloc', 'alloc', 'P04')
job(IZ + 'update', 'update', 'P04', opaque=(r'::deallocate$',))
job(IZ + 'tighten', 'tightenCell', 'P04', sig=r'^const unsigned char, const unsigned char, (Bounds|std::pair)', opaque=('Zone::close1',))
TI = dict(opaque=(r'^IntermediateZone::tighten$', r'^Zone::makeUnsat$'))
job(IZ + 'tighten', 'tightenClock', 'P01 P04', sig=r'^const unsigned char, const Constraint &, const unsigned char', **TI)
job(IZ + 'tighten', 'tightenAbsolute', 'P01 P04', sig=r'^const unsigned char, const Constraint &, const double', **TI)
job(IZ + 'tighten', 'tightenEnd', 'P01 P04', sig=r'^const std::vector<Constraint[^(]*ClockVariables\S* &$|^const std::vector<Constraint.*> &$', **TI)
job(IZ + 'tighten', 'tightenAt', 'P01 P04', sig=r'^const std::vector<Constraint.*, const double$', **TI)
job(IZ + 'isSatisfiableCanonized', 'isSatisfiableCanonized', 'P03 P04')
# ---- input words
job('getOne', 'getOne', 'P10 P25')
job('getOneBinary', 'getOneBinary', 'P10 P25')
LD = dict(opaque=())
job('LazyDeque::LazyDeque', 'dequeCtor', 'P10 P22', sig='_IO_FILE *, bool')
job('LazyDeque::operator[]', 'dequeAt', 'P06 P10')
job('LazyDeque::at', 'dequeAt', 'P06 P10')
job('LazyDeque::setFront', 'setFront', 'P06 P10')
job('LazyDeque::fetch', 'fetch', 'P06 P10')
job('LazyDeque::size', 'dequeSize', 'P06')
W = 'WordContainer<LazyDeque>::'
for c, s in [('operator[]', 'wcIndex'), ('at', 'wcAt'), ('size', 'wcSize'), ('setFront', 'wcSetFront'), ('fetch', 'wcFetch')]:
    job(W + c, s, 'P06 P10', opaque=('^LazyDeque::',))
EV = 'std::pair<char, double>'
job('WordVector<%s>::WordVector' % EV, 'wvCtor', 'P10', opaque=('^getOne',))
job('Vector<%s>::fetch' % EV, 'vectorFetch', 'P06')
job('Vector<%s>::setFront' % EV, 'vectorSetFront', 'P06')
# ---- answers
job('PrintContainer::push_back', 'printAns', 'P23')
job('PrintContainer::PrintContainer', 'printCtor', 'P22 P23', sig='bool')
job('PrintContainer::size', 'printSize', 'P23')
job('PrintContainer::clear', 'printClear', 'P23')
job('IntContainer<Zone>::push_back', 'intPush', 'P23')
job('IntContainer<Zone>::size', 'intSize', 'P23')
job('IntContainer<Zone>::clear', 'intClear', 'P23')
for t, s in [('PrintContainer', 'ap'), ('IntContainer<Zone>', 'an'), ('std::vector<Zone, std::allocator<Zone>>', 'av')]:
    job('AnsContainer<%s>::push_back' % t, s + 'Push', 'P23', opaque=('Container<?.*>?::push_back$',))
    job('AnsContainer<%s>::size' % t, s + 'Size', 'P23', opaque=('Container<?.*>?::size$',))
job('AnsContainer<std::vector<Zone, std::allocator<Zone>>>::clear', 'avClear', 'P23')
job('AnsContainer<PrintContainer>::clear', 'apClear', 'P23', opaque=('Container<?.*>?::clear$',))
# ---- timed automata
job('TimedAutomaton::deepCopy', 'deepCopy', 'P16 P19')
job('TimedAutomaton::clockSize', 'clockSize', 'P11')
job('TimedAutomaton::isMember', 'isMember', 'P01 P05')
job('operator<<', 'printTA', 'P24', sig='^std::basic_ostream.*, const TimedAutomaton')
# ---- zone automata
job('epsilonClosure', 'epsilonClosure', 'P27 P08 P30')
job('ZoneAutomaton::updateInitAccepting', 'zaUpdateInitAccepting', 'P27 P09')
job('ZoneAutomaton::empty', 'zaEmpty', 'P27 P09 P30')
job('ZoneAutomaton::removeDeadStates', 'removeDeadStates', 'P27 P08 P30')
# ---- skip tables
SK = ('^ta2za$', 'removeDeadStates$', '^(spec::)?epsilonClosure$')
job('SundaySkipValue::SundaySkipValue', 'sunday', 'P08', sig='TimedAutomaton', opaque=SK)
job('SundaySkipValue::at', 'sundayAt', 'P08')
job('SundaySkipValue::operator[]', 'sundayAt', 'P08')
job('SundaySkipValue::getM', 'sundayM', 'P08')
job('SundaySkipValue::getEndChars', 'sundayEnd', 'P08')
job('KMPSkipValue::KMPSkipValue', 'kmp', 'P09', sig='TimedAutomaton', cost=20,
    opaque=('^intersectionTA$', '^updateInitAccepting$', '^ta2za$', '^ZoneAutomaton::', '^TimedAutomaton::deepCopy$', '^widen$', '^Zone::'))
job('KMPSkipValue::at', 'kmpAt', 'P09', sig=r'^const TAState \*')
job('KMPSkipValue::operator[]', 'kmpAt', 'P09', sig=r'^const TAState \*')
job('KMPSkipValue::at', 'kmpAtShared', 'P09', sig='shared_ptr')
job('KMPSkipValue::operator[]', 'kmpAtShared', 'P09', sig='shared_ptr')
job('ta2za', 'ta2za', 'P27 P08 P09 P16 P30 P42', opaque=('^Zone::',), cost=20)
# ---- products
job('intersectionTA', 'intersectionTA', 'P12 P16 P19')
job('updateInitAccepting', 'updateInitAccepting', 'P12')
job('intersectionSignalTA', 'intersectionSignalTA', 'P28 P16 P19')

# ---- expressions to automata
job('operator<<', 'printTre', 'P14', sig='const TRE &', opaque=('^operator<<$',))
job('TREDriver::parse', 'driverParse', 'P21 P29', sig='std::basic_istream', opaque=('parse_helper',))
job('TREDriver::parse_helper', 'driverRun', 'P21 P29', opaque=('^TREScanner', 'TREParser'))
job('TREDriver::getResult', 'driverResult', 'P29')
for sg, sp in (('TRE::op', 'treEpsilon'), ('TRE::op, char', 'treLetter'), ('TRE::op, const std::shared_ptr<TRE>', 'trePlus'), ('TRE::op, const std::shared_ptr<TRE>, const std::shared_ptr<TRE>', 'trePair'),
               ('TRE::op, const std::shared_ptr<TRE>, const std::shared_ptr<Interval>', 'treWithin')):
    job('TRE::TRE', sp, 'P29 P20' + (' P14' if sp == 'treWithin' else ''), sig='^' + sg + '$')
job('concat2', 'concatTA', 'P13 P11 P19', cost=10)
job('removeStuckStates', 'dropStuckStates', 'P13 P19 P26')
job('reduceStates', 'dropAllStuckStates', 'P13 P30', opaque=('^removeStuckStates$',))
job('TRE::toEventTA', 'eventTA', 'P13 P11 P17 P19', opaque=('^TRE::toEventTA$', '^concat2$', '^reduceStates$', '^intersectionTA$'), cost=20)

# ---- expressions over signals
job('SyntacticDecision::concat', 'decisionConcat', 'P28 P26')
job('SyntacticDecision::isMixed', 'decisionMixed', 'P28')
job('SyntacticDecision::isConstant', 'decisionConstant', 'P28')
job('DNFTRE::DNFTRE', 'dnf', 'P28 P20', sig='shared_ptr<const TRE>', opaque=('^DNFTRE::DNFTRE$', '^AtomicTRE::AtomicTRE$'))
job('AtomicTRE::toSignalTA', 'signalAtomTA', 'P28 P11 P17 P19 P20', opaque=('TRE::toSignalTA$', '^concat2$'), cost=10)
job('DNFTRE::toSignalTA', 'signalTA', 'P28 P11 P19', opaque=('TRE::toSignalTA$', '^intersectionSignalTA$'))
job('toSignalTA', 'signalTranslation', 'P28', sig='^std::shared_ptr', opaque=('^DNFTRE::', '^renameToEpsilonTransitions$'))
AT = 'AtomicTRE::AtomicTRE'
job(AT, 'atomEpsilon', 'P20 P28', sig='')
job(AT, 'atomLetter', 'P20 P28', sig='Alphabet|^const (unsigned )?char$')
job(AT, 'atomSingleton', 'P20 P28', sig=r'^const std::shared_ptr<SingletonTRE>$')
job(AT, 'atomThree', 'P20 P28', sig=r'^const std::list')
job(AT, 'atomConcat', 'P20 P28', sig=r'^const std::shared_ptr<AtomicTRE>, const std::shared_ptr<AtomicTRE>$')
job(AT, 'atomPlus', 'P20 P28', sig=r'^const std::shared_ptr<DNFTRE>$')
job(AT, 'atomWithin', 'P20 P28 P14', sig=r'^const std::shared_ptr<AtomicTRE>, const std::shared_ptr<Interval>$', opaque=('^land$',))
job('SingletonTRE::SingletonTRE', 'singletonCtor', 'P28')
job('AtomicTRE::makeSNF', 'atomSNF', 'P20 P28', opaque=('^land$', '^plus$', '^operator\\+=$', 'makeSNF$'))
job('DNFTRE::makeSNF', 'dnfSNF', 'P20 P28 P30', opaque=('^land$', '^AtomicTRE::AtomicTRE$', '^AtomicTRE::makeSNF$'))
job('AtomicTRE::toNormalForm', 'atomNormal', 'P20 P28 P30', opaque=('^land$', '^operator\\+=$', 'makeSNF$', 'toNormalForm$', '^AtomicTRE::AtomicTRE$', '^SyntacticDecision::concat$'), cost=20)
job('DNFTRE::toNormalForm', 'dnfNormal', 'P28 P30', opaque=('toNormalForm$',), cost=5)
job('renameToEpsilonTransitions', 'silent', 'P28 P17 P19 P30')

# ---- the matching functions
MF = ('^Zone::', '^IntermediateZone::', '^KMPSkipValue::', '^SundaySkipValue::', '^WordContainer', '^AnsContainer')
WORD = dict(pure=(r'^WordContainer<.*>::(operator\[\]|at|size|fetch)$',), keeps=(r'^WordContainer<.*>::setFront$',))
MP = 'P03 P04 P05 P06 P07 P16 P26'
job('isValidConstraint', 'isValidConstraint', 'P03')
job('updateConstraint', 'updateConstraint', 'P01')
job('monaa', 'monaa', MP, opaque=MF, cost=50, **WORD)
job('monaaDollar', 'monaaDollar', MP + ' P22', opaque=MF, cost=40, **WORD)
job('monaaNotNecessaryDollar', 'monaaNotNecessaryDollar', MP, opaque=MF, cost=40, **WORD)

# ---- the tools
for at, sp in (('main.cc', 'mainMonaa'), ('tre2ta.cc', 'mainTre2ta')):
    job('main', sp, 'P21 P22', at=at, ignore=('literal text',),
        opaque=('^TREDriver', '^TRE::', '^toSignalTA$', '^monaa$', '^monaaDollar$', '^convBoostTA$', '^parseBoostTA$', '^WordLazyDeque', '^AnsPrinter', '^operator<<'))

# ---- automata as DOT text
job('operator>>', 'readGuard', 'P24', sig='Constraint &$')
job('operator>>', 'readResetVars', 'P24', sig='ResetVars &$', opaque=('^operator>>$',))
job('operator>>', 'readClocks', 'P24', sig='std::vector<unsigned char.*> &$')
job('operator>>', 'readGuards', 'P24', sig='std::vector<Constraint.*> &$', opaque=('^operator>>$',))
job('convBoostTA', 'fromGraph', 'P11 P19 P24 P25')
