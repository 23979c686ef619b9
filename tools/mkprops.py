import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,obs=None,hook=None):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],
        state=[dict(name=a,meaning=b,where=c) for a,b,c in (state or [])],
        observe_at=obs or [],hook_needed=hook)))

p("P01","Each domain activates its first configuration whose rule holds",
 "Whenever configurations are applied outside tuning mode, every domain independently makes active the first of its configurations, in creation order, whose application rule is true for the criterion states at that moment, and that choice depends on nothing else (not on what was active before, nor on how the states were reached). A rule is a tree of All (true when every operand is, hence when empty) and Any (true when some operand is, hence false when empty) over Is, IsNot, Includes and Excludes tests on one criterion; a configuration without a rule is never chosen. If no rule holds, the domain keeps its previously active configuration and its settings are left alone.",
 ["inputs","histories","configurations"],
 "every rule tree up to a size bound, every list of such configurations up to a length bound, every vector of criterion states, and every history of criterion changes and applications",
 "Existing tests evaluate a handful of fixed rules on a handful of states; the claim quantifies over all rule shapes, all state vectors and all histories that lead to an application.",
 ["parameter/ConfigurableDomain.cpp","parameter/DomainConfiguration.cpp","parameter/CompoundRule.cpp","parameter/SelectionCriterionRule.cpp","parameter/SelectionCriterion.cpp"],
 [("first applicable configuration search","parameter/ConfigurableDomain.cpp CConfigurableDomain::findApplicableDomainConfiguration"),
  ("All/Any evaluation","parameter/CompoundRule.cpp CCompoundRule::matches"),
  ("criterion tests","parameter/SelectionCriterionRule.cpp CSelectionCriterionRule::matches"),
  ("state predicates","parameter/SelectionCriterion.cpp is/isNot/includes/excludes")],
 [("last applied configuration","the configuration whose settings the domain currently carries","parameter/ConfigurableDomain.h")],
 ["status and listConfigurations commands","parameter values after applyConfigurations","writes received by a subsystem"])

p("P02","Applying writes exactly the newly chosen settings",
 "After an application every parameter of a domain whose active configuration changed holds that configuration's stored value, both in the framework and in the hardware, and each hardware object concerned receives its complete final value. A domain whose active configuration did not change causes no hardware access and no value change. Parameters that belong to no domain are never changed by an application.",
 ["histories","configurations"],
 "all histories of criterion changes, applications and settings edits up to a depth, over domains that own whole components, nested components, single parameters and parameters sharing one hardware object",
 "Tests check a few values after one or two applications; they neither compare the complete set of hardware writes nor vary the history that precedes them.",
 ["parameter/ConfigurableDomains.cpp","parameter/ConfigurableDomain.cpp","parameter/DomainConfiguration.cpp","parameter/AreaConfiguration.cpp","parameter/SyncerSet.cpp"],
 [("copy of the stored areas into the live blackboard","parameter/AreaConfiguration.cpp CAreaConfiguration::restore, copyTo"),
  ("bit field merge","parameter/BitwiseAreaConfiguration.cpp copyTo/copyFrom"),
  ("collection of what to synchronise","parameter/ConfigurableDomain.cpp CConfigurableDomain::apply, ConfigurableElement.cpp fillSyncerSet"),
  ("skip when unchanged","parameter/ConfigurableDomain.cpp CConfigurableDomain::apply")],
 [("main blackboard","current parameter values","parameter/ParameterMgr.h"),("area blackboards","settings stored per configuration and element","parameter/AreaConfiguration.h")],
 ["getParameter","subsystem send"])

p("P03","Tuning mode shields hand-made settings until it is left",
 "While tuning mode is on, applying configurations and client parameter writes change nothing, neither settings nor hardware nor which configuration is active. Commands that write parameters, create or delete domains or configurations, change a domain's elements, sequences or sequence awareness, save or restore a configuration, or import settings are accepted only while it is on and are otherwise refused without effect. Leaving it applies afresh, in every domain, the configuration that the current criterion states select, overwriting hand-made changes; switching to the mode already in force, or turning it on where tuning is not allowed, is refused.",
 ["histories","configurations"],
 "all histories mixing tuning switches, criterion changes, applications, client writes and every editing command, up to a depth",
 "Tests toggle the mode around single operations; the guarantee covers any interleaving of criterion changes and edits with the mode switches.",
 ["parameter/ParameterMgr.cpp","parameter/ElementHandle.cpp","parameter/ConfigurableDomains.cpp"],
 [("guard on editing commands","parameter/ParameterMgr.cpp CParameterMgr::checkTuningModeOn and per-function guards"),
  ("application ignored while tuning","parameter/ParameterMgr.cpp CParameterMgr::applyConfigurations"),
  ("client writes skipped","parameter/ElementHandle.cpp ElementHandle::setAs"),
  ("forced application on leaving","parameter/ParameterMgr.cpp CParameterMgr::setTuningMode, doApplyConfigurations")],
 [("tuning mode flag","","parameter/ParameterMgr.h _bTuningModeIsOn")],
 ["getTuningMode","setTuningMode","status","getParameter","subsystem send"])

p("P04","Auto-sync governs tuning writes, and sync makes hardware coherent",
 "With auto-sync on, every successful tuning change of live values is sent to the hardware before the command returns, so that hardware and framework values agree. With it off, tuning changes touch no hardware until sync is called or auto-sync is turned back on, either of which sends every parameter, after which hardware and framework agree; sync is refused while auto-sync is on. Applications and parameter writes by clients are sent whatever the auto-sync setting.",
 ["histories"],
 "all histories of auto-sync switches, sync, parameter writes, configuration restores, element settings writes and applications, up to a depth",
 "Tests look at one switch with one parameter; coherence is an invariant over every history and every kind of write.",
 ["parameter/ParameterMgr.cpp","parameter/ConfigurationAccessContext.cpp","parameter/ParameterAccessContext.cpp","parameter/BaseParameter.cpp","parameter/ConfigurableDomain.cpp"],
 [("auto-sync flag carried by the access context","parameter/ParameterAccessContext.cpp"),
  ("sync of everything","parameter/ParameterMgr.cpp CParameterMgr::sync, setAutoSync"),
  ("sync after a write","parameter/BaseParameter.cpp, ElementHandle.cpp, ParameterMgr.cpp CParameterMgr::sync/accessParameterValue"),
  ("restore with or without sync","parameter/ConfigurableDomain.cpp restoreConfiguration, DomainConfiguration.cpp restore")],
 [("auto-sync flag","","parameter/ParameterMgr.h _bAutoSyncOn")],
 ["setAutoSync, sync","subsystem send"])

p("P05","Sequence-aware domains are applied last, element by element, in order",
 "In one application, the values of all sequence-unaware domains are put in place first and every hardware object they concern is sent once, in one batch; after that the sequence-aware domains follow, in domain order. Inside a sequence-aware domain each element's value is put in place and sent before the next element's, in the element sequence of the configuration being applied. Setting an element sequence moves the listed elements to the front in the listed order, keeps the relative order of the others and never loses, adds or duplicates an element; it refuses, changing nothing, a list naming a foreign or a repeated element.",
 ["histories","configurations"],
 "all element sequences of up to three elements, all assignments of sequence awareness to up to three domains, all histories of sequence edits, element additions and applications up to a depth",
 "Tests have few sequence-aware domains and never observe the order of hardware writes relative to other domains over edited sequences.",
 ["parameter/ConfigurableDomains.cpp","parameter/ConfigurableDomain.cpp","parameter/DomainConfiguration.cpp","parameter/SyncerSet.cpp"],
 [("two phase application","parameter/ConfigurableDomains.cpp CConfigurableDomains::apply"),
  ("per element synchronisation","parameter/DomainConfiguration.cpp CDomainConfiguration::restore"),
  ("sequence reordering","parameter/DomainConfiguration.cpp setElementSequence")],
 [("area order","element sequence of one configuration","parameter/DomainConfiguration.h"),("sequence awareness","","parameter/ConfigurableDomain.h")],
 ["order of subsystem sends","getElementSequence"])

p("P06","Editing a domain's structure preserves every setting it does not name",
 "Adding an element gives every configuration that element's current live values, merging in (not losing) settings the configurations already hold for its descendants; splitting an element replaces it by its children with their settings unchanged; removing an element, configuration or domain leaves every other setting untouched. A new configuration starts from the settings of an existing configuration of the domain, or from the live values when it is the first; saving copies live values into the named configuration only; restoring makes live values equal to it. None of these edits, save restoring, changes a live value or another configuration or domain, and an element is never owned twice, directly or through an ancestor, by the same domain.",
 ["histories","configurations"],
 "all histories of create, delete, rename, add, remove, split, save, restore and settings writes up to a depth over a tree with nested components, arrays and bit fields",
 "Tests run fixed scripts of a few edits; settings preservation must hold for every history of edits, including adding ancestors and siblings of already owned elements.",
 ["parameter/ConfigurableDomains.cpp","parameter/ConfigurableDomain.cpp","parameter/DomainConfiguration.cpp","parameter/AreaConfiguration.cpp","parameter/ConfigurableElement.cpp"],
 [("merge of nested areas","parameter/ConfigurableDomain.cpp doAddConfigurableElement, mergeAlreadyAssociatedDescendantConfigurableElements; AreaConfiguration.cpp copyFromInner/copyToOuter"),
  ("split","parameter/ConfigurableDomain.cpp split; DomainConfiguration.cpp split"),
  ("validation of new areas","parameter/DomainConfiguration.cpp validate, validateAgainst")],
 [("areas","per configuration list of stored element settings","parameter/DomainConfiguration.h")],
 ["getConfigurationParameter","listDomainElements","listBelongingDomains","getParameter"])

p("P07","A refused command leaves no trace",
 "A command or API call that reports failure leaves parameter values, configuration settings, domain structure, rules, sequences, modes and the hardware exactly as they were, whatever made it fail: bad name, bad value, wrong mode, wrong arguments or element not eligible (only a refused import of all domains may have removed the domains it was to replace). It never terminates the process, and it is told apart from success by its result, with a reason.",
 ["inputs","histories"],
 "every command with every combination of valid and invalid arguments from a small alphabet, in every state of a small system reachable within a depth",
 "Tests check the error result of a few calls; that nothing changed, for each failing call in each state, is not examined.",
 ["parameter/ParameterMgr.cpp","parameter/ConfigurableDomains.cpp","parameter/ConfigurableDomain.cpp","parameter/DomainConfiguration.cpp","parameter/ArrayParameter.cpp","remote-processor/RemoteCommandHandlerTemplate.h"],
 [("argument count and usage checks","remote-processor/RemoteCommandHandlerTemplate.h remoteCommandProcess"),
  ("validation before mutation","parameter/ParameterMgr.cpp, ConfigurableDomain.cpp, ArrayParameter.cpp")],
 None,["every command of the command handler","complete observable state before and after"])

p("P08","Exported settings restore the same system",
 "Exporting all domains, or one domain, with its settings and importing the result in the same or in a freshly started system of the same structure reproduces exactly: domains and their order, configurations and their order, rules (with the same meaning and the same text), sequence awareness, element lists, element sequences and every stored parameter value. The same holds of the settings file written to disk, and of a domain exported and re-imported with overwrite. Exporting changes nothing. Where the names given by the user are XML names and each domain has a configuration, what is exported satisfies the published schemas, so that it also loads with schema validation.",
 ["histories","configurations","inputs"],
 "every domain set reachable within a depth of editing commands over parameters of every type with boundary values, including names that need escaping in XML",
 "Tests round-trip one or two fixed files and compare text; the guarantee is over every reachable setting, rule and value.",
 ["parameter/ParameterMgr.cpp","parameter/ConfigurableDomains.cpp","parameter/ConfigurableDomain.cpp","parameter/DomainConfiguration.cpp","parameter/AreaConfiguration.cpp","parameter/CompoundRule.cpp","parameter/SelectionCriterionRule.cpp","xmlserializer/XmlElement.cpp","parameter/XmlParameterSerializingContext.cpp"],
 [("domain to XML and back","parameter/ConfigurableDomain.cpp toXml/fromXml and helpers"),
  ("settings to XML and back","parameter/DomainConfiguration.cpp composeSettings/parseSettings, AreaConfiguration.cpp serializeXmlSettings"),
  ("rule to XML and back","parameter/CompoundRule.cpp, SelectionCriterionRule.cpp toXml/fromXml")],
 None,["exportDomainsXml/importDomainsXml, getDomainsWithSettingsXML, exportDomainXml/importDomainXml","state after import"])

p("P09","A faulty settings document is refused and changes no setting",
 "A settings document that is malformed, names an unknown element, domain kind, criterion or value, misses or repeats a parameter, or holds a value out of range is refused with an error. A refused single-domain import leaves every domain as it was; a refused import of all domains leaves either the previous domains or none, never a half-imported one. In no case do live parameter values or hardware change, and the process survives and stays usable.",
 ["inputs"],
 "every single-point mutation (drop, duplicate, swap, rename, re-value, truncate) of a settings document that exercises every element kind, in several prior states",
 "Tests feed a handful of broken documents; the claim is about every defect position in the document.",
 ["parameter/ParameterMgr.cpp","parameter/ConfigurableDomains.cpp","parameter/ConfigurableDomain.cpp","parameter/DomainConfiguration.cpp","parameter/XmlParameterSerializingContext.cpp","parameter/Element.cpp"],
 [("domain import with roll back","parameter/ConfigurableDomains.cpp addDomain; ParameterMgr.cpp importSingleDomainXml, importDomainsXml"),
  ("structure matching of settings","parameter/ConfigurableElement.cpp / TypeElement serializeXmlSettings")],
 None,["importDomainsXml/importDomainXml and the set*XML commands"])

p("P10","A scalar parameter accepts exactly its range and reads back what was set",
 "For every scalar type (boolean, signed and unsigned integers of each width, fixed point, IEEE float, enumeration, bit field, string, linear and logarithmic adaptation) a value is accepted if and only if it is well-formed, inside the declared range and representable; in the typed interface, the text interface, decimal or hexadecimal, real or raw space alike. An accepted value reads back as that value (to the declared precision, through any interface able to represent it) and the hardware receives its declared little-endian encoding; a refused one leaves the old value.",
 ["inputs"],
 "all 8-bit types exhaustively and all boundary and malformed texts of the wider ones, for every size, sign, range, format and value-space combination",
 "Tests sample some bounds per type; conversions have a large product of size, sign, format, space and interface whose corners are not sampled.",
 ["parameter/IntegerParameterType.cpp","parameter/BaseIntegerParameterType.cpp","parameter/FixedPointParameterType.cpp","parameter/FloatingPointParameterType.cpp","parameter/EnumParameterType.cpp","parameter/BooleanParameterType.cpp","parameter/BitParameterType.cpp","parameter/StringParameter.cpp","parameter/LinearParameterAdaptation.cpp","parameter/LogarithmicParameterAdaptation.cpp","utility/convert.hpp"],
 [("range check and encoding","parameter/IntegerParameterType.h, FixedPointParameterType.cpp, FloatingPointParameterType.cpp, EnumParameterType.cpp, BitParameterType.cpp toBlackboard/fromBlackboard"),
  ("text to number","utility/convert.hpp, FixedPointParameterType.cpp, BitParameterType.cpp")],
 None,["setParameter/getParameter","typed handle accessors","subsystem send"])

p("P11","A write touches the addressed parameter and nothing else",
 "Setting one parameter, array element, bit field or string, by text or typed access, live or in a stored configuration, changes that parameter's value only: every other parameter keeps its value, in the framework, in every configuration and in the hardware bytes. This holds for any mix of neighbours: bit fields of any position and width in one block, arrays, nested blocks and arrays of blocks, strings and parameters of any size. Each parameter occupies its own fixed place in the bytes sent to its hardware object.",
 ["configurations","inputs"],
 "every pair (parameter written, layout) over all layouts of up to three neighbours drawn from all parameter kinds, and all bit field position/width partitions of a byte block",
 "Tests have one layout; overlap and offset errors appear only for particular neighbours, positions and access paths.",
 ["parameter/ParameterBlackboard.cpp","parameter/ArrayParameter.cpp","parameter/BitParameter.cpp","parameter/BitParameterType.cpp","parameter/BitwiseAreaConfiguration.cpp","parameter/StringParameter.cpp","parameter/ParameterBlockType.cpp","parameter/InstanceConfigurableElement.cpp"],
 [("offset assignment","parameter/ConfigurableElement.cpp setOffset, ArrayParameter.cpp getFootPrint, BitParameterBlock.cpp"),
  ("masking of bit fields","parameter/BitParameterType.cpp toBlackboard/fromBlackboard, isEncodable"),
  ("base offset of stored areas","parameter/ParameterAccessContext.cpp getBaseOffset users")],
 None,["getParameter, getConfigurationParameter on every parameter","getElementBytes","subsystem send"])

p("P12","Subtree transfer by XML or bytes is lossless and all-or-nothing",
 "Reading any element's subtree as XML or as bytes and writing it back, now or after arbitrary changes, restores every parameter of the subtree to its value at the reading, and changes nothing outside the subtree. A byte array of the wrong size or XML not matching the subtree is refused and changes nothing. Bytes are the concatenation, in structure order, of each parameter's encoding (a single bit field, having no bytes of its own, transfers by XML only).",
 ["inputs","histories"],
 "every element of a structure with all parameter kinds, every pair of value vectors from a small alphabet, every wrong size and single-point document mutation",
 "Tests transfer one or two elements in one state; all-or-nothing and non-interference need every element, state pair and defect position.",
 ["parameter/ParameterMgr.cpp","parameter/ElementHandle.cpp","parameter/ConfigurableElement.cpp","parameter/XmlParameterSerializingContext.cpp","parameter/InstanceConfigurableElement.cpp"],
 [("bytes transfer","parameter/ConfigurableElement.cpp getSettingsAsBytes/setSettingsAsBytes; ParameterMgr.cpp"),
  ("XML transfer through a shadow blackboard","parameter/ParameterMgr.cpp setSettingsAsXML/getSettingsAsXML")],
 None,["getElementBytes/setElementBytes/getElementXML/setElementXML commands","handle getAsXML/setAsXML/getAsBytes/setAsBytes"])

p("P13","A client handle reaches only the parameter it names, and only if it owns it",
 "A handle created from a path reads and writes exactly that element, and writes succeed only on parameters that no domain owns, tracking later changes of ownership. Accesses whose type, dimension or length does not suit the parameter are refused with an error and without effect, for scalars and arrays alike. Every accessor for which the handle reports suitability round-trips values unchanged, and the hardware sees a parameter write at once.",
 ["inputs","histories"],
 "every accessor on every parameter kind, with every array length from zero to one beyond the declared one, before and after the element or an ancestor joins or leaves a domain",
 "Tests use handles mainly on one or two parameter types, never across ownership changes nor for the complete accessor/kind product.",
 ["parameter/ElementHandle.cpp","parameter/BaseParameter.cpp","parameter/Parameter.cpp","parameter/ArrayParameter.cpp","parameter/ConfigurableElement.cpp"],
 [("ownership check","parameter/ElementHandle.cpp, ConfigurableElement.cpp isRogue/belongsTo"),
  ("typed array access","parameter/ArrayParameter.cpp accessAs*, setValues/getValues")],
 None,["createElementHandle and all its accessors"])

p("P14","Hardware failures are contained and reported",
 "If some hardware object refuses a write or a read, every other hardware object of the operation is still handled with its proper value, and framework values stay the intended ones. A tuning command that asked for the failing access reports the failure; applying configurations completes for every domain; and once the hardware works again, synchronising restores coherence.",
 ["fault_sequences","histories"],
 "every position of one or two failing accesses in every history of writes, applications, syncs and restores up to a depth",
 "No existing test has failing hardware; the guarantee is over every failure position in every history.",
 ["parameter/SyncerSet.cpp","parameter/SubsystemObject.cpp","parameter/ConfigurableDomain.cpp","parameter/DomainConfiguration.cpp","parameter/ParameterMgr.cpp","parameter/HardwareBackSynchronizer.cpp"],
 [("error accumulation","parameter/SyncerSet.cpp CSyncerSet::sync; ConfigurableDomain.cpp apply"),
  ("access result","parameter/SubsystemObject.cpp accessHW, sync")],
 None,["subsystem send with injected failures","command results","values"])

p("P15","Restarted hardware is refilled, and rogue values are read at start",
 "A subsystem that reports having restarted has, at the next application, every one of its parameters sent with its current value, once, whatever the domains select, and is not refilled again for the same report. At start, parameters that belong to no domain with an applicable configuration take the values read from their hardware (or the declared default when the subsystem is absent or virtual or refuses the read), while the others get the settings selected by the criteria and are sent.",
 ["fault_sequences","histories","configurations"],
 "every position of a restart report of each of two subsystems in every history of criterion changes and applications up to a depth, and every ownership of elements at start",
 "No test restarts a subsystem more than once or at different points; ownership patterns at start are not varied.",
 ["parameter/ParameterMgr.cpp","parameter/ConfigurableDomains.cpp","parameter/SystemClass.cpp","parameter/Subsystem.cpp","parameter/HardwareBackSynchronizer.cpp","parameter/SimulatedBackSynchronizer.cpp","parameter/BackSynchronizer.h"],
 [("restart detection","parameter/SystemClass.cpp checkForSubsystemsToResync; Subsystem.cpp needResync"),
  ("back synchronisation of rogue areas","parameter/HardwareBackSynchronizer.cpp, SimulatedBackSynchronizer.cpp; ParameterMgr.cpp load")],
 None,["subsystem send/receive","getParameter after start"])

p("P16","Startup honours its failure policies",
 "Starting succeeds with complete structure and settings, or fails with an error and no crash; which of them depends only on the files and the policies set before. Missing plugins or unmapped subsystems are fatal exactly when the respective policy says so (otherwise that part is served by a virtual subsystem); plugins that need one another are loaded, each once, whatever the order they are listed in; and unreadable or invalid settings are fatal exactly when the settings policy says so (otherwise the system starts without domains); invalid files are never partly taken over. The remote port is opened exactly when tuning is allowed and remote access is not forbidden; failing to open it fails the start.",
 ["inputs","configurations"],
 "every combination of policies with every single-point defect of the configuration, structure and settings files",
 "Tests cover single defects under default policies; the product of policies, defects and positions is not covered.",
 ["parameter/ParameterMgr.cpp","parameter/SystemClass.cpp","parameter/SubsystemLibrary.h","parameter/DefaultElementLibrary.h","xmlserializer/XmlDocSource.cpp","parameter/Element.cpp"],
 [("load sequence","parameter/ParameterMgr.cpp load, loadFrameworkConfiguration, loadStructure, loadSettings"),
  ("plugin and fallback policy","parameter/SystemClass.cpp loadSubsystems, ParameterMgr.cpp loadSubsystems")],
 None,["start result and state of the started instance"])

p("P17","A rule text is parsed completely or refused, and dumps to an equal rule",
 "Any text given as a rule is either accepted as exactly the rule it denotes in the documented grammar, or refused with an error that leaves the previous rule in force; no text crashes the framework or is accepted in part. Reading back an accepted rule gives a text that is accepted again and denotes the same rule.",
 ["inputs"],
 "every token sequence up to a length bound over the grammar's tokens, with every placement of blanks and stray characters up to a bound, and every well-formed rule tree up to a size bound",
 "Tests try about ten texts; parsers fail on particular token sequences, which only enumeration covers.",
 ["parameter/RuleParser.cpp","parameter/CompoundRule.cpp","parameter/SelectionCriterionRule.cpp","parameter/ConfigurableDomain.cpp"],
 [("tokeniser and state machine","parameter/RuleParser.cpp iterate/next"),("parsing","parameter/CompoundRule.cpp parse; SelectionCriterionRule.cpp parse"),("dump","CompoundRule.cpp dump; SelectionCriterionRule.cpp dump")],
 None,["setRule/getRule commands"])

p("P18","Criterion types and states stay consistent",
 "A criterion type accepts a value exactly when its name and number are both new and, for inclusive types, its number is a single bit and its name can stand in a set (not empty, no '|', not the text of the empty set); names and numbers then map one-to-one, sets of values print and parse back to the same number, and a refused addition changes nothing. A criterion's state is always the last one set, changes are seen at the next application, and setting a state notifies or alters nothing else.",
 ["inputs","histories"],
 "all sequences of value additions and state changes up to a length over a small alphabet of names and numbers, for inclusive and exclusive types",
 "Tests add some fixed values; one-to-one mapping under every order of accepted and refused additions is not covered.",
 ["parameter/SelectionCriterionType.cpp","parameter/SelectionCriterion.cpp","parameter/SelectionCriteria.cpp"],
 [("value pair insertion","parameter/SelectionCriterionType.cpp addValuePair"),("formatting","getFormattedState, getNumericalValue"),("state","parameter/SelectionCriterion.cpp setCriterionState")],
 None,["criterion type and criterion interfaces","listCriteria command"])

p("P19","No byte stream on the remote port can crash or wedge the server",
 "A well-formed request is executed once and answered once with its result, however the network splits or delays its bytes, and several requests on one or successive connections are answered in order with the right results. A truncated, corrupted, oversized or otherwise malformed request executes nothing, ends at most its own connection and leaves the process alive, values unchanged and the server ready, once that connection is over, to answer the next one. Once an instance is destroyed, its port serves the next one at once, however the connections ended.",
 ["inputs","schedules","fault_sequences"],
 "every segmentation of a request, every truncation point, every single-byte corruption of the header and length fields, and every order of good and bad connections up to a bound",
 "Tests send well-formed requests from one client in whole messages; the guarantee quantifies over arbitrary bytes and timing of them.",
 ["remote-processor/Message.cpp","remote-processor/RequestMessage.cpp","remote-processor/AnswerMessage.cpp","remote-processor/RemoteProcessorServer.cpp","remote-processor/Socket.cpp"],
 [("framing and checksum","remote-processor/Message.cpp serialize"),("length-prefixed fields","remote-processor/Message.cpp readString/readData; RequestMessage.cpp collectReceivedData"),("accept loop","remote-processor/RemoteProcessorServer.cpp")],
 None,["bytes answered on the socket","handler invocations","process liveness"])

p("P20","Commands and API agree",
 "Every remote command that has an API counterpart (parameter and settings access, modes, domain and configuration edits, rules, sequences, import and export, subtree transfer) has the same effect on the system and reports the same outcome and value as that API call in the same state, whether it arrives through the in-process command handler or over the network. Unknown commands, and known ones with too few arguments, are refused with an explanation and change nothing. Commands that list elements, domains and their associations show exactly the current ones and change nothing.",
 ["histories","inputs"],
 "all pairs (reachable state within a depth, operation), each run once through the API and once through the command handler and over a socket, and every command with every argument count up to six",
 "Tests mostly exercise either side alone; equivalence over states is never compared.",
 ["parameter/ParameterMgr.cpp","parameter/CommandHandlerWrapper.cpp","remote-processor/RemoteCommandHandlerTemplate.h","parameter/ParameterMgrFullConnector.cpp"],
 [("command table","parameter/ParameterMgr.cpp gastRemoteCommandParserItems and *CommandProcess"),("dispatch","remote-processor/RemoteCommandHandlerTemplate.h")],
 None,["command handler results","API results","state"])

p("P21","Concurrent clients and remote commands act one at a time",
 "When an application thread applies configurations or accesses parameters through handles while the remote command thread executes commands, every execution is equivalent to some sequential order of the whole operations: final values, active configurations, modes, hardware and all returned results are those of that order. No schedule deadlocks, crashes or lets a client write take effect after tuning mode was reported on.",
 ["schedules"],
 "every interleaving, up to a bound on preemptions, of two threads of one or two operations each drawn from all pairs of operation kinds",
 "Tests are single threaded apart from one smoke test; a race needs a preemption at a particular point.",
 ["parameter/ParameterMgr.cpp","parameter/ParameterMgr.h","parameter/ElementHandle.cpp","parameter/ParameterMgrFullConnector.cpp"],
 [("blackboard mutex","parameter/ParameterMgr.cpp getBlackboardMutex users"),("locked handle access","parameter/ElementHandle.cpp setAs/getAs")],
 [("main blackboard, domains, tuning flag","shared by the application and remote threads","parameter/ParameterMgr.h")],
 ["results and final state of every interleaving"],"memory access instrumentation of an own build; no change of sources needed")

p("P22","The C interface is safe under any call sequence and reports faithfully",
 "Any sequence of C interface calls, valid or not (before start, after a failed start, with null, unknown or duplicate names, out-of-range values), returns normally with success exactly when the request was carried out. After a failure a non-empty message describing it can be read, and after a success no error is left; a failed call changes no criterion, parameter or other observable. Criterion values are positions in the list given at start, or sets of them for inclusive criteria.",
 ["histories","inputs"],
 "all call sequences up to a depth over an alphabet of valid and invalid calls and arguments",
 "Tests call the interface in mostly valid orders; misuse orders such as a call after a failed start are not enumerated.",
 ["bindings/c/ParameterFramework.cpp","bindings/c/ParameterFramework.h"],
 [("status bookkeeping","bindings/c/ParameterFramework.cpp Status"),("start and criteria creation","pfwStart, pfwHandler::createCriteria"),("binding","pfwBindParameter and accessors")],
 [("last error","","bindings/c/ParameterFramework.cpp")],
 ["return values, pfwGetLastError, criterion and parameter values"])

p("P23","Names are unique and every path resolves to one element",
 "Every element, domain and configuration can be addressed by its path or name and by no other, and the path an element reports resolves back to it (repeated and trailing slashes do not matter; / stands for the root where elements are listed; the elements of an array parameter are addressed by their decimal index when a value is read or written). No accepted sequence of creations, renamings and imports yields two siblings, two domains or two configurations of a domain with the same name; a duplicate or empty name and a malformed path are refused without effect. Renaming changes the name only.",
 ["inputs","histories"],
 "all paths up to a length over a small alphabet of names, separators and indices on several structures, and all rename/create histories up to a depth",
 "Tests resolve known good paths; totality of resolution over malformed paths and uniqueness under histories is not sampled.",
 ["parameter/Element.cpp","parameter/PathNavigator.cpp","parameter/ElementLocator.cpp","parameter/ArrayParameter.cpp","parameter/ConfigurableDomains.cpp","parameter/ConfigurableDomain.cpp","parameter/TypeElement.cpp"],
 [("path navigation","parameter/PathNavigator.cpp; ElementLocator.cpp"),("rename checks","parameter/Element.cpp rename; ConfigurableDomains.cpp renameDomain"),("sibling uniqueness at load","parameter/Element.cpp init / TypeElement")],
 None,["getParameter/listElements on every path","createElementHandle, getPath","listDomains"])

p("P24","Instances in one process do not affect each other",
 "Several framework instances living in the same process, with same or different structures, behave each exactly as it would alone: no operation on one, including failing, starting or destroying it, changes any observable of another. Creating, starting and destroying instances in any order leaks no state into later ones.",
 ["histories"],
 "all interleaved histories, up to a depth, of two instances compared with each history run alone",
 "Tests use one instance at a time, apart from one sequential case.",
 ["parameter/ParameterMgr.cpp","parameter/SystemClass.cpp","parameter/ElementLibrarySet.cpp","utility/DynamicLibrary.cpp","xmlserializer/XmlDocSource.cpp"],
 [("per-instance libraries and blackboard","parameter/ParameterMgr.cpp constructor"),("element ids and shared statics","parameter/*.cpp")],
 None,["complete observable state of both instances"])

p("P25","A domain description compiles to settings with the meaning it states",
 "For a valid domain description in the extended grammar, the domain generator exits with 0 and prints settings that hold exactly the domains, configurations, elements and values a direct reading of the description gives, each configuration applying in exactly the criterion states where all the rules of its own, of the domains, domain groups and configuration groups around it and of the configuration types of its name in scope hold. Nested domains and configurations take dotted names, a domain is sequence aware if it or a group around it is, the element sequence of a configuration is that of its lines, and components only factor paths. Initial settings and single domain files are part of the result; the plugins, settings and tuning flag of the framework configuration do not matter. A description that is not well formed (unknown lines, misplaced elements, blanks in the indentation, indentation by more than one level, configurations of a domain with different elements) is refused and nothing is printed; every other error (unknown path, criterion or state, refused value, repeated name, element in two domains, unreadable source, output that cannot be written) gives an exit code other than 0, the number of failed commands and conflicts up to 255.",
 ["programs","inputs"],
 "families of descriptions: all nestings of domain and configuration groups with rules, types and sequence awareness at every level, all rule trees up to a size, all ways to cut element paths into components and order them, value spellings, all single edits of a larger description, combinations of sources, criteria files and framework configurations; rules compared in all criterion states",
 "Tests compile one or two example descriptions and compare text.",
 ["tools/xmlGenerator/EddParser.py","tools/xmlGenerator/domainGenerator.py","tools/xmlGenerator/domainGeneratorConnector.cpp","tools/xmlGenerator/hostConfig.py"],
 [("parsing","tools/xmlGenerator/EddParser.py Parser"),("propagation","tools/xmlGenerator/EddParser.py propagate"),("generation","EddParser.py translate and domainGenerator.py")],
 None,["exit code, standard output read back by an independent parser, and compared by value in every criterion state"])

p("P26","Structure description yields the tree, defaults and mappings it declares",
 "Starting from a structure description yields exactly the declared tree: components hold the parameters of their type followed by those of the types it extends, arrays have the declared length, and each parameter of a subsystem without hardware starts with the default of its type (an integer's minimum, an enumeration's first value, otherwise zero or the bound nearest to it). A hardware object receives the mapping value of its element, with amendments substituted, and the context keys set on its element and the enclosing ones up to the subsystem; a context key set twice along a path is refused, and mapping data looked up through a handle is that of the innermost element having it. A description with an unknown, recursive or duplicate type, an element that is misplaced, unnamed or named like a sibling, an unsupported size, range or bit position, or a bad mapping is refused at start, with an error. Splitting a description into included files changes none of this.",
 ["configurations","inputs"],
 "all component type graphs up to three types with extension and nesting, all placements of mapping values over the nesting levels, all kinds of parameters with their attributes, and all single and some double edits of valid descriptions",
 "Tests have a few fixed structures; precedence and inheritance over nested placements are only sampled.",
 ["parameter/ComponentType.cpp","parameter/ComponentInstance.cpp","parameter/ComponentLibrary.cpp","parameter/Subsystem.cpp","parameter/MappingContext.cpp","parameter/MappingData.cpp","parameter/SubsystemObjectCreator.cpp","parameter/FormattedSubsystemObject.cpp","parameter/TypeElement.cpp"],
 [("type extension","parameter/ComponentType.cpp populate"),("mapping context stack","parameter/Subsystem.cpp mapBegin/mapEnd, handleMappingContext; MappingContext.cpp"),("amendments","parameter/FormattedSubsystemObject.cpp")],
 None,["listElements, dumpElement, getParameter","mapping strings received by subsystem objects"])
p("P27","remote-process carries commands and answers faithfully",
 "remote-process sends exactly the command and arguments it is given, blanks around each aside, as one request, and prints the text of the answer: on standard output with exit code 0 if the command succeeded, on standard error with another exit code if it failed. This holds whatever the strings are and however the network cuts them. If the arguments are missing, the connection cannot be made, or the answer is missing, cut, corrupt or no answer, it explains so on standard error, prints nothing on standard output and exits with a code other than 0. It never crashes, nor waits once the connection has ended.",
 ["inputs","faults"],
 "all vectors of up to three strings of an alphabet of awkward ones, all answers with their truncations, one byte corruptions and sizes, all ways to cut reads and writes in two or three pieces, failures of each socket call, early ends of the connection at every byte; command histories of a real system driven through it",
 "Tests never run remote-process.",
 ["remote-process/main.cpp","remote-processor/RequestMessage.cpp","remote-processor/AnswerMessage.cpp","remote-processor/Message.cpp"],
 [("client","remote-process/main.cpp main, sendAndDisplayCommand"),("requests","remote-processor/RequestMessage.cpp fillDataToSend"),("answers","remote-processor/AnswerMessage.cpp collectReceivedData; Message.cpp serialize")],
 None,["exit code, standard output and standard error of remote-process","bytes received by the server"])

p("P28","The instance describes itself truthfully",
 "For every element of a started system the commands and the element handle tell what the structure description gave it: its name, kind, description, unit, size, array length, signedness, range, notation, value pairs and adaptation attributes in the properties; the same attributes, with defaults filled in, and the same children in the exported structure; its children, the parameters below it with their kinds, and its values in the dump. Numbers are shown as numbers whatever the width of the parameter, and a value refused for being out of range is refused naming the range. The dump of the domains shows exactly the domains, configurations, rules, awareness and last applied configurations there are at that moment.",
 ["inputs","histories"],
 "families of parameters with all their attributes, bit fields of all sizes and positions, component graphs, single edits of descriptions, in several surroundings; all states of a bounded breadth-first exploration of the domains",
 "Tests read a few properties of a few fixed parameters.",
 ["parameter/Element.cpp","parameter/InstanceConfigurableElement.cpp","parameter/ElementHandle.cpp","parameter/IntegerParameterType.h","parameter/BitParameterType.cpp","parameter/EnumParameterType.cpp","parameter/FixedPointParameterType.cpp","parameter/FloatingPointParameterType.cpp","parameter/ParameterAdaptation.cpp","parameter/LinearParameterAdaptation.cpp","parameter/LogarithmicParameterAdaptation.cpp","parameter/ConfigurableDomain.cpp"],
 [("properties","showProperties in parameter/*.cpp"),("structure export","parameter/InstanceConfigurableElement.cpp structureToXml, parameter/*ParameterType.cpp toXml"),("dumps","parameter/Element.cpp dumpContent, logValue"),("range refusals","parameter/IntegerParameterType.h checkValueAgainstRange, parameter/BitParameterType.cpp toBlackboard")],
 None,["showProperties, getElementSize, getElementStructureXML, listElements, listParameters, dumpElement, dumpDomains","element handles","refusal texts of setParameter"])

open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
for x in P:
    assert len(x['title'])<=80,x['id']
    n=x['statement'].count('. ')+1
    print(x['id'],n,len(x['statement']))
