ABS = 'static analysis: abstract interpretation of the SSA form with path partitioning and loop summaries'
REF = 'static analysis: abstract interpretation of the SSA form, summaries related to those of a reference function by lockstep simulation of loops'
N = 'Decided from the source for all inputs, up to the assumptions in the evidence file; anything the analysis cannot decide is reported as a violation. '
ERR = 'static analysis: abstract interpretation of each function with its calls as events (error-flow and file typestate on every path)'
GENC = 'static analysis: abstract interpretation of generators and templates on families of suites, then type-checking and linking of the C++ they give (clang, not run)'
TECH = {
 'C16': (GENC.split(', then')[0] + ', then abstract interpretation of the C++ over clang syntax trees next to the state machine', 'Decided for all values and orders of events on the listed shapes of suite and configuration; values are symbols. '),
 'C32': (GENC.split(', then')[0] + ', then abstract interpretation of the C++ over clang syntax trees next to the state machine, timers as events', 'Decided for all values and orders of events on the listed shapes of suite and configuration, for the periods that the driver gives its timers; that ROS keeps them is assumed. '),
 'C17': (GENC.split(', then')[0] + ', then abstract interpretation of the C++ over clang syntax trees next to the state machine', 'Decided for all values and orders of events on the listed shapes of suite and configuration; values are symbols. '),
 'C15': (ABS + ' of generators and template parsing and execution, with a static type check of every template branch', N), 'C18': (GENC.split(', then')[0] + ', then parsing of the build files', 'Decided for the listed shapes of suite and configuration with symbolic names. '), 'C27': (GENC, 'Decided for all names of the listed shapes of suite and configuration. '),
 'C30': (GENC, 'Decided for all names and values of the listed shapes of suite and configuration, which cover every branch of the templates. '),
 'C12': (REF, N), 'C23': (REF, N), 'C13': (REF, N), 'C20': (REF, N),
 'C19': (REF + '; iterations over maps classified; generators and templates interpreted with maps in both orders', N), 'C11': (ERR, N), 'C22': (ERR, N),
 'C01': (ABS, N),
 'C21': (ABS + ', of every stage alone under contracts that its callers and callees are checked against', N),
 'C06': (REF, N), 'C07': (REF, N), 'C08': (REF, N), 'C02': (REF, N), 'C03': (REF, N), 'C04': (REF, N), 'C05': (REF, N),
 'C14': (REF, N), 'C34': (REF, N), 'C33': (REF + '; the XML types compared with the documented formats', N), 'C24': (REF, N),
 'C10': (REF, N), 'C09': (ABS + '; readers and writers related to reference functions', N), 'C25': (REF, N), 'C26': (REF, N), 'C28': (REF, N), 'C29': (REF, N),
}
NA = {
 'C31': 'Needs the meaning of arbitrary user text as C++; whether it compiles is a property of the input, not of this source. C30 decides what the templates themselves declare and use.',
}
