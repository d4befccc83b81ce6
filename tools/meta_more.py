prop('P06', 'Published identifiers and constants are the standards\' values and act as values',
     'Every object identifier, number, string and limit the package publishes has the value its standard assigns, in '
     'every form: dotted text, tuple, octets. It works as a value does: equal to the same identifier read from a message, '
     'usable as a dictionary key, ordered and prefix-tested by its arcs, and never equal to a different identifier.',
     ['inputs'], 'every identifier, constant and upper bound of every module, every way of using it',
     'Tests mention only the identifiers of the recorded messages; a digit lost in one of the other thousand is noticed '
     'by no test, yet makes a peer fail to recognise the algorithm or extension.',
     [MODS], [('identifiers', 'id_* / univ.ObjectIdentifier(...) and _OID/_buildOid helpers'), ('upper bounds', 'ub_*, MAX')],
     'runtime monitor: every published value compared in each form with the frozen, audited value',
     'All values are compared, in several uses each; trusts the audit of the frozen values (OpenSSL, const-oid, texts).')

prop('P07', 'Named numbers and named bits translate to the right values in both directions',
     'Wherever an enumerated, integer or bit string type declares names, assigning a name gives the number or bit the '
     'standard assigns to it, reading a number gives back its name, and both survive encoding and decoding. Names that '
     'are not declared are refused, and values without a name keep their number.',
     ['inputs'], 'every named value of every type, at every component, element or default that uses it',
     'Tests read the names that occur in a recorded message; swapped or missing numbers of the other names decode without '
     'an error, under the wrong name.',
     [MODS], [('named values', 'namedValues = namedval.NamedValues(...)')],
     'runtime monitor: assignment, encoding and reading of each name compared with the frozen numbers',
     'All names at all places down to three levels below each published type.')

prop('P08', 'Importing has the same outcome whatever was imported before, and no other effect',
     'What a module publishes, and how open content of each registered identifier is read once the registering module is '
     'imported, does not depend on which other modules were imported, in what order, by which thread, or on interpreter '
     'options, hash seed or environment. Registrations of different modules add up instead of replacing each other. '
     'Importing opens no files but modules, prints nothing and changes no global settings.',
     ['inputs', 'histories', 'schedules'], 'every module alone, every order and subset of imports, imports from several threads',
     'The test suite imports modules in one fixed order in one process, where a registry replaced by an import, or a name '
     'that exists only because another module was imported, looks right.',
     [MODS], [('registry updates', '*Map.update(_*MapUpdate) at the end of modules'), ('cross-module imports', 'import lines')],
     'runtime monitor: fresh interpreters with an audit hook; structural fingerprints of definitions and registries compared '
     'across import histories',
     'Sampled orders, subsets and thread schedules, each module alone. Three registry conflicts are known findings.',
     state=[('registries', 'shared dictionaries filled by import', 'rfc5280.py, rfc5652.py, rfc5751.py, ...')])

prop('P09', 'Using the definitions never changes them, and values do not share state',
     'No history of building, encoding, decoding, failing, editing, copying or printing changes what a published type, '
     'ready-made object, default or registry means: the same operation gives the same result later. Editing one value, in '
     'place and at any depth, including content taken from a default, does not change another value of that type, and one '
     'schema object can be reused for any number of messages.',
     ['histories', 'inputs'], 'every published type, registry and ready-made object, any sequence of successful and failing '
     'operations on them',
     'Each unit test runs one operation on objects of its own; state leaking through class-level schema objects, defaults '
     'or registries shows only in later, unrelated operations.',
     [MODS], [('class-level schema objects', 'componentType, defaults and templates built once at import'),
              ('registries', 'openType maps shared by modules')],
     'runtime monitor: deep snapshots of all published state around random operation histories, canary operations, sibling checks',
     'Exploration of random histories over all types; about 77 000 objects watched per snapshot.',
     state=[('published objects', 'classes, templates, constants, registries: must stay as after import', 'every module')])

prop('P10', 'PEM blocks and base64 text are extracted exactly, whatever surrounds them',
     'From any text, the PEM reader returns the wanted blocks one by one, in order: the index of the marker pair that '
     'matched and exactly the octets that were armoured, leaving the file just after the block. Prose, blocks of other '
     'kinds and near-miss markers are skipped, line width, line ends and blank space do not matter, a block not closed by '
     'its own end marker yields nothing, and base64 text is read whole.',
     ['inputs', 'histories'], 'any text with any number of blocks of any content, marker pairs wanted, file-like object',
     'Tests feed base64 literals only; sequences of blocks, several marker pairs, foreign blocks and broken armour are '
     'never read.',
     ['pyasn1_modules/pem.py'], [('block reader', 'readPemBlocksFromFile: stSpam/stHam/stDump'), ('text', 'readBase64fromText')],
     'runtime monitor: generator-as-oracle over random multi-block texts, plus files made by openssl',
     'Exploration. Lines that split a group of four base64 characters are outside what PEM writers produce and not judged.')

prop('P11', 'The dump tools show every message whole and fail on anything else',
     'Given well-formed messages of its kind, each dump tool prints every component of every message in order, reports '
     'how many there were and exits successfully, whatever surrounds them. Given a damaged, truncated, wrong or non-DER '
     'message, or unexpected arguments, it ends with a failing exit status, and it always ends.',
     ['inputs'], 'every dump tool, any sequence of messages of its kinds, any single damage, nested layers',
     'No test runs the tools at all.',
     ['tools/*dump*.py'], [('loop over blocks', 'while True: readPemBlocksFromFile'), ('proof', 'assert encoder.encode(x) == substrate'),
                           ('layers', 'cmcdump.py, pkcs7dump.py')],
     'runtime monitor: exit status and output of the real tools compared with an independent strict decoder',
     'Exploration over generated and mutated inputs; run in process and, sampled, as processes.')

prop('P12', 'The OCSP and SNMP clients ask what they are told and report what is answered',
     'The OCSP client sends one request whose certificate identifier is that of the given user certificate under the '
     'given issuer, and reports the serial number, status and times of the answer. The SNMP client sends one get-request '
     'for the given name and community to the given host and shows the answer. Certificates that do not belong together, '
     'and answers that are unsuccessful, of another type or malformed, end in a failing exit status.',
     ['inputs', 'histories'], 'any issuer and user certificate, any community, name and answer',
     'No test runs the clients.',
     ['tools/ocspclient.py', 'tools/snmpget.py'], [('request', 'mkOcspRequest'), ('answer', 'parseOcspResponse')],
     'runtime monitor: recorded requests and reports judged by an independent decoder, against a scripted peer',
     'Exploration with a loopback responder and a stand-in socket; requests also compared with openssl\'s.')

prop('P13', 'Threads using the definitions at once get what each would get alone',
     'When several threads import modules, build, encode, decode, open, print and refuse messages at the same time, '
     'sharing types, schema objects and registries, each operation has the outcome it has in a single thread, including '
     'the very first use of a module, and nothing published changes.',
     ['schedules', 'inputs'], 'any number of threads, any operations on any published types, any interleaving',
     'All tests run in one thread.',
     [MODS, 'pyasn1_modules/pem.py'], [('shared state', 'class-level schema objects, registries, templates'),
                                       ('first use', 'module import and its registry updates')],
     'runtime monitor: per-operation oracle under stress scheduling (microsecond switch interval, barriers, fresh interpreters)',
     'Sampled schedules; one value object is written by one thread only. Switches between operations are counted as evidence.')

prop('P14', 'A value means the same in every BER form it can take',
     'Messages written with BER\'s freedoms (superfluous length octets, indefinite lengths, strings in fragments, defaults '
     'spelled out, other TRUE octets, SET OF members in any order) are read as the same value as their canonical form, '
     'leave what follows untouched and are written as the same DER. What the package\'s types write as BER is of the type, '
     'and reads back as the same value.',
     ['inputs'], 'every published type, every value, every mix of BER forms node by node',
     'Recorded messages are DER almost without exception; whether a type leans on the canonical form (an order of SET OF '
     'members, a default that is never spelled out, a definite length) only other forms of the same message show.',
     [MODS], [('types', 'componentType / tagSet of every class'), ('defaults', 'namedtype.DefaultedNamedType')],
     'runtime monitor: independent BER writer with per-node choices, the library\'s reading compared field by field',
     'Exploration by coverage sets plus random values and random forms. Forms pyasn1 itself does not read (fragmented '
     'character strings, indefinite lengths around open types) are left out, see DESIGN.md.')

prop('P15', 'Ready-made objects are what their standard defines and can be put to use',
     'Every object the package publishes ready-made (algorithm identifiers with their parameters; attribute, extension, '
     'bag, content and name templates) carries the identifier, the values and the content type its standard gives it, in '
     'line with the registry entry of that identifier. It can be completed, put into any message component of its type, '
     'written and read back.',
     ['inputs'], 'every ready-made object, any content, every message component of its type',
     'The tests touch a handful of these objects; copied-and-pasted assignments that fill the wrong object compile and '
     'break nothing that is tested.',
     [MODS], [('templates', "x = Attribute(); x['attrType'] = ...; x['attrValues'][0] = ..."),
              ('algorithm identifiers', 'rfc4055.py, rfc3560.py, rfc5990.py, rfc8017.py, ...')],
     'runtime monitor: contents, content types and registry entries exercised and compared with the frozen objects',
     'All objects, sampled contents and messages; trusts the audit of the frozen objects.')

prop('P16', 'Values and types can be pickled, copied and handed to another process',
     'Any published type, registry entry, constant or ready-made object, and any value put together or read with one, '
     'survives pickling with every protocol into an interpreter that has loaded nothing else, where it still reads and '
     'writes exactly the octets it stands for; a copy in the same process is of the same class and is written the same.',
     ['inputs'], 'every published type and object, any value, protocols 2 to 5, a receiving process with nothing imported',
     'No test pickles anything; a class that its module does not publish under its own name, a default built by a local '
     'function, or a module that only works after another was imported shows in the receiving process alone.',
     [MODS], [('types', 'class statements of every module'), ('registries', 'module-level maps')],
     'runtime monitor: values sent to a fresh interpreter over pipes and compared with an independent encoding',
     'Exploration by coverage sets plus random values; deepcopy of constructed values is not offered by pyasn1.')

prop('P17', "Messages made by other software are read as what they are and kept intact",
     'Certificates, revocation lists, requests, keys, PKCS#7, CMS, PKCS#12, OCSP, time-stamping and CMP messages that a '
     'widely used independent implementation makes are accepted by every type of the package for them, with open content '
     'resolved to the registered types or not, hold exactly the settings they were made from, and are written back octet '
     'for octet.',
     ['inputs'], 'every message OpenSSL makes from any names, extensions, algorithms, times and options',
     'The tests hold one or two recorded messages per module; optional fields, alternatives, name forms and extension '
     'combinations that the recorded messages lack are not tried.',
     [MODS], [('certificates', 'rfc2459.py, rfc3280.py, rfc5280.py'), ('messages', 'rfc2315.py, rfc5652.py, rfc4210.py, rfc6960.py, rfc3161.py, rfc7292.py, ...')],
     'runtime monitor: messages generated by OpenSSL from random settings, readings compared with the settings',
     'Exploration by random settings; independent of the frozen definitions the other checks use.')

prop('P18', 'Any input gets an answer, and the work grows in step with its size',
     'Whatever octets are decoded as any published type, whatever text the PEM reader reads and whatever the dump tools are '
     'fed, the call ends with a result or an exception, never hangs, never brings the interpreter down and leaves nothing '
     'behind. Four times the elements, lines or messages cost about four times the work, and each line of a file is read '
     'once.',
     ['inputs', 'histories'], 'any octets and text, any length and depth, repeated any number of times',
     'The tests feed small well-formed messages; unterminated, hostile, very long or deep input and its cost are not tried.',
     [MODS], [('text', 'pem.py, readPemBlocksFromFile'), ('tools', 'tools/*dump.py'), ('types', 'constraints and open types of every module')],
     'runtime monitor: interpreter steps counted through sys.monitoring, CPU limits, line reads and live objects counted',
     'Exploration; the step counter does not see work inside C functions, which the CPU limits on megabytes of text bound.')

prop('P19', 'Every value can be shown whole, as text and as plain Python data',
     'Any value of a published type, put together or read, open content resolved or not, can be printed and turned into '
     'plain Python data. The text names every component that is there and shows every number, identifier, text and octet '
     'string in order; the data holds exactly the components of the value under their published names, none left out, '
     'none added but defaults.',
     ['inputs'], 'every value of every published type',
     'The tests print a few recorded messages and look at nothing but the absence of errors; plain data is not looked at.',
     [MODS], [('types', 'componentType names, namedValues and prettyPrint of every class')],
     'runtime monitor: text and plain data of generated values compared with the abstract value',
     'Exploration by coverage sets plus random values. Plain data is not read back, see DESIGN.md.')

prop('P20', 'A message that was edited is the message it would have been built as',
     'Whatever sequence of edits a value went through (components assigned, optional ones added, parts replaced, '
     'alternatives switched, list members replaced, added or emptied and refilled; assignments refused, printing, copying, '
     'writing and reading in between), it is written as a value built afresh with the same content, and reads as such.',
     ['inputs', 'histories'], 'any value of any published type, any history of edits',
     'The tests build values in one go or read them; no test edits a message and looks at all of it afterwards.',
     [MODS], [('types', 'componentType of every class; setComponentBy... of the classes')],
     'runtime monitor: model-based histories, octets compared with those of the model after every step',
     'Exploration by random histories; removal of single components is not offered by pyasn1.')

prop('P21', 'A part that stands on its own fits wherever its type is declared',
     'Wherever a published type declares a component or list member to be of another published type, a value of that other '
     'type - made from its class, read on its own, or taken out of any other message - can be put in that place, by name, '
     'position, append or extend, and the whole is then written as if it had been built in place.',
     ['inputs', 'histories'], 'every value, origin and place of every declared component with a published type',
     'The tests decode whole recorded messages; putting a message together from parts read elsewhere (certificates, names, '
     'algorithms, attributes) is tried for none of the types.',
     [MODS], [('types', 'componentType, tagSet and subtypeSpec of every class')],
     'runtime monitor: parts of every origin put in every declared place, octets compared with those of the whole',
     'Exploration of all declared places by random values; 64 places are known findings for parts that were read.')

prop('P22', 'Values with the same content are equal, and no others',
     'Two values of a published type with the same content are equal, whole and part by part, however each came about: '
     'read, put together in any order, also after writing and printing. Values in which any simple part differs in the '
     'least - a digit, a blank, the case, a bit, an arc, a second - are not. Simple values equal, order and hash as the '
     'plain values they stand for.',
     ['inputs', 'histories'], 'every pair of values of every published type that pyasn1 can compare',
     'The tests compare octets, or values with constants of their own; a comparison of the types that overlooks something '
     'is noticed only with two values that differ just there.',
     [MODS], [('types', 'every class; __eq__, __hash__ and ordering they inherit or define')],
     'runtime monitor: comparisons of generated pairs with those of the abstract values',
     'Exploration by random values and single small changes. Comparisons pyasn1 refuses, or decides without looking at '
     'the chosen alternative, are not judged.')

prop('P23', 'Types of a user\'s own, made from published ones, work as declared',
     'From any published type a user can make a subclass, a form with other tags, implicit or explicit, a narrowed form, a '
     'list, set, component or alternative of it, and the content behind an identifier of an own registry. Values of these '
     'are written and read with exactly the tags, limits and content of the published type and of the declaration, and '
     'the published type stays as it was.',
     ['inputs'], 'every published type, every way of deriving, tags of every class and size, every value',
     'The tests derive nothing; extensions, attributes and protocols of the user\'s own are the reason such a package exists.',
     [MODS], [('types', 'tagSet, subtypeSpec, componentType and constructors of every class')],
     'runtime monitor: derived types exercised, octets compared with those assembled by hand around the independent encoder\'s',
     'Exploration: all types in all forms, random tags and values.')

prop('P24', 'Reading a message in any way shows the same and changes nothing',
     'Whichever way a value is looked at - components by name, position, key, items, values or iteration, members by '
     'index or slice, the chosen alternative by any accessor, simple values as numbers, text, octets, bits, arcs, lengths or '
     'slices - it shows the content it has, and having been looked at in any order it still has that content and is '
     'written as before.',
     ['inputs', 'histories'], 'every value of every published type, every accessor, any sequence of looks',
     'The tests use one accessor each on a few components of recorded messages, once, and do not write the message after it.',
     [MODS], [('types', 'every class; accessors they inherit or define')],
     'runtime monitor: random sequences of looks compared with the abstract value, octets compared afterwards',
     'Exploration by random values and looks; absent structures are looked at without instantiating them.')

prop('P25', 'Published types behave in every way like the plain types they define',
     'Under every operation the codec library offers on a value or type - calls of any method with sensible or nonsensical '
     'arguments, operators, conversions, slices, edits, copies, retagging, writing, reading of good or damaged octets - in any '
     'sequence, a published type does what a plain type of the same tags, limits, components and names would do, '
     'result for result and refusal for refusal.',
     ['inputs', 'histories'], 'every published type, every operation, sequences of operations on one value and its copies',
     'Generic code handles values of all modules by one rule; the tests call few of the operations on few of the types, never '
     'with arguments to be refused, never in sequence.',
     [MODS], [('types', 'every class; everything it overrides or adds to its base')],
     'runtime monitor: lockstep comparison of the type with a twin made of plain classes',
     'Exploration by random sequences of operations. The one type preset by its definition, an organization\'s fixed name, is left out.')
