"""Which contract units decide which property, and what each leaves assumed."""
PROPS={
 'Q01':dict(tus=['quantity.cpp'],assumes=['results outside the 64-bit range of an amount are out of scope (addition and multiplication wrap there)']),
 'M01':dict(tus=['price.cpp'],assumes=['amounts are 64-bit: sums and negations whose exact result is not representable are out of scope','sums, differences and products of prices in different currencies are out of scope (the code asserts)']),
 'M02':dict(tus=['quote.cpp'],assumes=['amount times lot size is representable in 64 bits','std::variant<price> has one alternative, so quotes of different kinds do not exist in this tree']),
 'M04':dict(tus=['codes.cpp'],assumes=[]),
 'M03':dict(tus=['valuation.cpp'],level='other',note='The arithmetic is proved for all amounts, rates, prices and quantities; the tables of rates and prices hold one entry besides the one looked up (bounded).',assumes=['amount times numerator (price times quantity) is representable in 64 bits','boost::rational reduces a fraction without changing its value (library)']),
 'T01':dict(tus=['interval.cpp'],assumes=[]),
 'F01':dict(tus=['isin.cpp'],assumes=['symbols are digits and upper-case letters']),
 'F02':dict(tus=['isin.cpp'],assumes=['symbols are from the permitted upper-case alphabet']),
 'F03':dict(tus=['lei.cpp'],assumes=['identifiers are well-formed (four digits, twelve digits or upper-case letters)']),
 'R01':dict(tus=['serialization.cpp'],level='other',note='Proved for every value of the listed types and identities of any length, except entities (names of up to three digits, up to four children) and the share registers of dividend policies and records (up to two classes), which are bounded.',assumes=['an archive of Boost.Serialization passes an object\'s serialize functions in order and returns each primitive value, string, vector, map and binary block as it was saved; its own formats and its tracking of pointers are not claimed','string streams: an integer extracted where an integer was inserted is that integer','boost::integer::gcd of a reduced fraction is one','the fields of fractions are reduced before saving (boost::rational)']),
 'G01':dict(tus=['algorithms.cpp'],budget=120,assumes=['array helpers: one contract instance per template argument list used in /repo and a range of others; the sizes are compile-time constants']),
 'S01':dict(tus=['identity.cpp'],level='other',note='Every obligation is discharged for every digit value, for identities of up to three digits (bounded).',assumes=[]),
 'S07':dict(tus=['parametrization.cpp'],level='other',note='Standard parameters are proved for all values; lookup is decided for every stored value over a bounded set of names and map sizes.',assumes=[]),
 'S02':dict(tus=['entity.cpp'],level='other',note='Every obligation is discharged for every digit value and child count, for creators with identities of up to nine digits (bounded).',assumes=['a creator makes fewer than 2^64 children']),
 'S03':dict(tus=['communicator.cpp'],level='other',note='bounded: up to three messages and callbacks',assumes=['std::multimap, boost containers, std::function and the standard random engine are executed, not replaced']),
 'S04':dict(tus=['communicator.cpp'],level='other',note='bounded: up to two callbacks registered before',assumes=[]),
 'S05':dict(tus=['model.cpp'],level='other',note='bounded: up to two agents acting at most twice (three on worker threads)',assumes=['worker threads: one schedule (each thread runs where it is started); serialization type registration (BOOST_CLASS_EXPORT) left out']),
 'S06':dict(tus=['model.cpp'],level='other',note='bounded: up to three agents and three messages, every delivery time and pending wake-up',assumes=['serialization type registration (BOOST_CLASS_EXPORT) left out']),
 'S08':dict(tus=['model.cpp'],level='other',note='bounded: up to three agents',assumes=['serialization type registration (BOOST_CLASS_EXPORT) left out']),
 'S09':dict(tus=['model.cpp'],level='other',note='All times; runs of up to three steps; the steps of a model are any that move forward within the step (model::step is overridden for environment::run and environment::step, and verified itself under S05)',assumes=['the progress display of environment::run: clock readings and floating-point results are arbitrary, and its conversions to integers are not range-checked','serialization type registration (BOOST_CLASS_EXPORT) left out']),
 'S10':dict(tus=['model.cpp'],level='other',note='All times and samples; up to six agents, two rounds, one earlier step, two threads',assumes=['worker threads: one schedule (each thread runs where it is started)','serialization type registration (BOOST_CLASS_EXPORT) left out']),
 'Q02':dict(tus=['quantity.cpp'],assumes=[]),
 'B01':dict(tus=['order_book.cpp'],level='other',note='bounded: one insertion into any book of up to three resting orders (any limits and quantities), unit lot size',assumes=['quote lots are one','static_order_book is not covered','order lifetimes (fill-or-kill and so on) are ignored by the code and not claimed']),
 'B02':dict(tus=['order_book.cpp'],level='other',note='bounded: one insertion into any book of up to three resting orders (any limits and quantities), unit lot size',assumes=['quote lots are one','static_order_book is not covered']),
 'B03':dict(tus=['order_book.cpp'],level='other',note='bounded: cancellation, also after a match, in any book of up to three resting orders',assumes=['quote lots are one','static_order_book is not covered']),
 'B04':dict(tus=['order_book.cpp'],level='other',note='bounded: up to three orders and one cancellation; instruments of single-digit identities, every digit value',assumes=[]),
 'B05':dict(tus=['block_pool.cpp'],level='other',note='bounded: every history of up to five operations on pools of capacity one to three, every released index value',assumes=['copies of a pool share slots with the original and are not claimed']),
 'A01':dict(tus=['inventory.cpp'],level='other',note='bounded: up to three items per inventory, every quantity; two owners',assumes=['quantities add up within 64 bits','serialization type registration (BOOST_CLASS_EXPORT) left out']),
 'A02':dict(tus=['cash_flow.cpp'],level='other',note='bounded: up to three mutations, every date and amount',assumes=['sums are representable in 64 bits']),
 'A03':dict(tus=['shares.cpp'],level='other',note='Ordering of share classes is proved for all classes; totals are bounded to three share classes with every number of shares and dividend; computed dividends are bounded to the listed profits and up to three shares per class',assumes=['sums are taken modulo 2^64','serialization type registration (BOOST_CLASS_EXPORT) left out']),
 'A04':dict(tus=['shares.cpp'],level='other',note='All times, steps and dates; registers of up to two shareholders and policies with one share class',assumes=['the dividend policy a derived company plans is arbitrary (upcoming_dividend is overridden)','serialization type registration (BOOST_CLASS_EXPORT) left out']),
}
COMMON_TRUST=['clang 18 front end and the LLVM passes sroa, early-cse, instsimplify, simplifycfg preserve the meaning of /repo\'s sources (compiled with -fwrapv; NDEBUG unset)',
 'the VC generator /verif/engine (symbolic execution of LLVM IR) and the solvers z3 and cvc5',
 'operator new never fails; distinct allocations are disjoint']
