PROPS = []

def prop(id, **kw):
    PROPS.append(dict(id=id, **kw))

prop("C01", title="A parser and its grammar never change once the parser is built",
 statement="After a parser has been constructed, no parsing operation and no standard hook layer ever modifies the parser, its grammar, its configured layers or any package-level data, so one parser may serve any number of parses, sequential or concurrent. Constructing a parser does not modify the grammar either.",
 over=["schedules", "histories", "inputs"],
 quant="every grammar, every sequence and every interleaving of parses sharing one parser, every hook layer shipped with the library",
 why="Tests run one parse per parser on fixed inputs; a write to shared data is visible only to a second or concurrent parse. The race detector needs the schedule; the effect analysis covers every write in the code.",
 files=["parser/parser.go", "parser/hooks.go", "lexer/lexer.go", "parser/layers/convert/convert.go", "parser/layers/indent/indent.go", "parser/layers/restrict/restrict.go"],
 mech=[("per-parse context copies everything mutable", "parser.newParseContext"), ("layers create per-parse state in Init", "indent.layer.Init")],
 observe=["parser.Parser.Parse called twice or concurrently"],
 technique="points-to and write-effect analysis on SSA (phase-sensitive heap)",
 note="Over-approximates every write of the library under context-sensitive points-to; trusts that caller-supplied hooks/templates touch only their own data and that regexp.Regexp is immutable.")

prop("C02", title="Source bytes and tokens are never modified",
 statement="No operation of the library except the newline normaliser applied by the caller changes a byte of a source's content, nor a byte of a token cut from it. A token's type, name, content reference and position never change once the token has been created.",
 over=["inputs", "histories"],
 quant="every source content, every grammar and hook layer, every operation of the public API",
 why="A byte is overwritten only when a slice happens to have spare capacity or an unusual token sequence occurs (one such defect existed in the indent layer); tests compare results, not the source buffer, and sample few inputs.",
 files=["source/source.go", "lexer/token.go", "lexer/lexer.go", "parser/layers/indent/indent.go", "langdef/parser.go"],
 mech=[("content is only sliced and copied", "lexer.Lexer, langdef.processStringToken, indent.layerState.adjustIndent")],
 observe=["source.Source.Content", "lexer.Token accessors"],
 technique="points-to and write-effect analysis on SSA",
 note="Every store/append/copy in the library is checked against all byte arrays that may back source content; caller-supplied code is trusted.")

prop("C09", title="Reading a syntax tree never changes it; selectors are reusable",
 statement="Navigation, walking, searching, filtering and selector application never modify any tree element or any slice passed in by the caller. Applying a selector, filter or extractor does not change it, so it gives the same answer however many times and on however many trees it is used.",
 over=["inputs", "histories", "schedules"],
 quant="every tree, every composition of the exported selectors, filters and extractors, any number of applications",
 why="Tests apply each selector once to a fixed tree; hidden state or in-place edits surface only on repeated or concurrent use.",
 files=["tree/tree.go"],
 mech=[("extractors build new slices", "tree.Selector.Apply, tree.Nth, tree.All"), ("walker keeps its state in itself", "tree.Walker")],
 observe=["tree.Selector.Apply", "tree.Children", "tree.Walk"],
 technique="points-to and write-effect analysis on SSA",
 note="All writes reachable from reading operations are enumerated and proven to hit fresh memory (or the walker's own state); caller-supplied filters and visitors are trusted.")

prop("C03", title="Parsing reports the first error exactly and runs nothing after it",
 statement="When a hook, a hook layer, the lexer or the parse context reports an error, Parse and ParseString return that very error with a nil result, and no further hook is called. No error raised while parsing is dropped, replaced or turned into a result.",
 over=["inputs", "histories", "fault_sequences"],
 quant="every error returned by every user hook (token, node instance hooks), every layer hook, the lexer and the context, at every call site reachable from Parse",
 why="Tests return an error from a few hooks on a few inputs; a dropped error shows only when it is raised on one particular internal path (lookahead, branch collapse, EoI, side tokens).",
 files=["parser/parser.go", "parser/hooks.go", "parser/layers/indent/indent.go", "parser/layers/convert/convert.go", "parser/layers/restrict/restrict.go"],
 mech=[("every call that can fail is checked before anything else happens", "parser.ParseContext.parse, handleToken, handleRules"), ("layers forward hook errors", "parser.(*hookLayer)")],
 observe=["parser.Parser.Parse result and error", "hooks called"],
 technique="path-sensitive error-flow (typestate) analysis on SSA with function summaries",
 note="Every path from an error-producing call to the exit of Parse is enumerated with interprocedural summaries; hook calls are opaque. A path the analyser cannot exclude counts as feasible.")

prop("C04", title="No error is lost by grammar loading, parser construction or the generator",
 statement="Every error produced inside langdef.Parse*, parser.New, layer registration and setup, lexer and the other exported functions that return errors reaches the caller of that function unchanged, together with zero results. llxgen writes no output and exits with a non-zero status when any step fails.",
 over=["inputs", "fault_sequences"],
 quant="every exported error-returning function, every layer template's Setup, package initialisation and the llxgen main program; every error source and every path from it",
 why="A description or configuration error is lost only on the particular path which drops it; tests sample one path per documented error.",
 files=["langdef/parser.go", "langdef/result.go", "lexer/lexer.go", "parser/parser.go", "parser/hooks.go", "parser/layers/indent/indent.go", "parser/layers/convert/convert.go", "parser/layers/restrict/restrict.go", "cmd/llxgen/llxgen.go"],
 mech=[("errors are returned as soon as they appear", "langdef.parse*, parser.New"), ("exit on error", "llxgen main")],
 observe=["returned errors", "llxgen exit status and output file"],
 technique="path-sensitive error-flow (typestate) analysis on SSA with function summaries",
 note="All error-producing calls and constructors in scope are enumerated; wrapping an error in a new error that refers to it is accepted, dropping it is not.")

prop("C05", title="Everything is deterministic: equal inputs give equal outcomes",
 statement="Loading the same grammar description, generating code for it, constructing a parser and parsing the same source with the same hooks always give the same grammar, the same generated file, the same sequence of hook calls, the same result and the same error, message included. Nothing depends on map iteration order, time, addresses or scheduling.",
 over=["schedules", "histories", "inputs"],
 quant="every iteration over a map and every other source of indeterminism in the library and in llxgen",
 why="Map order differs from run to run but rarely within one test; an order-dependent message or numbering passes the tests almost always (several such defects existed).",
 files=["langdef/parser.go", "langdef/result.go", "parser/parser.go", "parser/hooks.go", "internal/ints/intset.go", "cmd/llxgen/llxgen.go"],
 mech=[("keys are sorted before use", "langdef, parser.newHookLayer, common"), ("order-insensitive loops", "langdef.assignGroups, bitset loops")],
 observe=["returned grammar", "llxgen output", "error messages", "hook calls"],
 technique="custom dataflow analysis of map iterations (commutativity of loop effects) on SSA",
 note="Every range over a map must be order-insensitive or sorted; a loop whose effects the analyser cannot prove commutative is reported. Hook ids of literals unknown to the grammar are numbered in map order and trusted to be used as table indexes only.")

prop("C07", title="Choosing between rules runs no node hooks and leaves the parse state alone",
 statement="While the parser looks ahead to choose between rules, no node hook and no method of a node hook instance is called, the current result does not change and the stack of open nodes with their pending side tokens stays as it was; only token fetching and token hooks take place. Node hooks therefore see only the rules that are finally chosen.",
 over=["inputs", "histories"],
 quant="every grammar with conflicting rules, every input, every lookahead length",
 why="A hook called for an abandoned branch or a shared stack shows up only when a conflict lasts for several tokens and the losing branch opens or closes nodes.",
 files=["parser/parser.go", "parser/misc.go"],
 mech=[("branches work on a copied stack with hooks off", "parser.(*ParseContext).resolveConflict, parsingBranch")],
 observe=["sequence of node hook calls"],
 technique="constant-sensitive reachability on SSA plus points-to write-effect analysis",
 note="Paths are pruned by constant arguments only. Effects are over-approximated by points-to sets.")

prop("C15", title="Cancelling the context stops the parse at the next token",
 statement="After the context given to Parse or ParseString is done, the parser fetches at most one more token and then returns the error of the context, calling no more token hooks; hooks and layers receive that very context or one derived from it.",
 over=["schedules", "inputs", "fault_sequences"],
 quant="every path between two token fetches or token hook calls, including loops which skip side tokens or tokens dropped by hooks, and lookahead",
 why="Tests cancel before the parse starts or inside one hook; a loop which never polls the context is seen only with inputs that keep it running.",
 files=["parser/parser.go", "parser/hooks.go"],
 mech=[("poll before each fetch", "parser.(*ParseContext).nextToken"), ("poll before each token hook", "parser.(*ParseContext).handleToken")],
 observe=["error returned by Parse", "hooks called after cancellation"],
 technique="path-sensitive typestate analysis on SSA with function summaries",
 note="All paths of Parse are explored with summaries; assumes that a single lexer call and every hook return in finite time.")

prop("C12", title="The hook layer registry is safe to use concurrently and keeps the first entry",
 statement="Templates may be registered while other goroutines register templates or construct parsers; registration and construction neither race nor deadlock, even if a template's Setup registers another template. The first template registered under a name stays; a repeated registration returns an error and changes nothing. Construction uses a template given in the options for that name, otherwise the registered one, otherwise it returns an error.",
 over=["schedules", "histories", "inputs"],
 quant="every access to the registry, every path through registration and through the lookup made by parser.New",
 why="A missed lock, a lock held while foreign code runs or a check made outside of the lock fails only for a particular interleaving.",
 files=["parser/hooks.go", "parser/parser.go"],
 mech=[("one lock guards the map, released before Setup is called", "parser.registeredHookLayer"), ("first registration wins", "parser.RegisterHookLayer")],
 observe=["parser.RegisterHookLayer error", "parser.New result and error"],
 technique="lockset typestate and path-sensitive flow analysis on SSA",
 note="Every path through each function touching the registry is enumerated. Trusts the sync package; foreign code is any interface method or function value.")

prop("C13", title="Layer configuration is validated: bad commands rejected, good ones accepted",
 statement="Constructing a parser with a standard hook layer (indent, convert, restrict) fails with the documented error code when the layer's command list has an unknown command, lacks a required one, repeats a command that may be used once, has a wrong number of arguments, names an unknown or a special token type where an ordinary one is required, or repeats a name that must not repeat. Any list free of such faults is accepted whatever the order of commands.",
 over=["configurations", "inputs"],
 quant="every command list of every standard layer: all valid combinations and orders of commands, and every single fault in any place of them; argument names are arbitrary",
 why="Tests try a few lists; a check skipped for one command, one order of commands or one position of an argument is not noticed (several such defects existed).",
 files=["parser/layers/indent/indent.go", "parser/layers/convert/convert.go", "parser/layers/restrict/restrict.go", "parser/layers/common/common.go"],
 mech=[("commands are checked one by one and then as a whole", "template.Setup of each layer"), ("error constructors", "common.Make*Error")],
 observe=["error returned by parser.New", "llx.Error.Code"],
 technique="abstract interpretation of SSA over classes of command lists with symbolic names",
 note="Setup of each template is interpreted abstractly for each class of lists: commands are repeated at most twice and have at most 4 arguments, names are symbols that differ from each other. Trusts Parser.TokenType as specified.")

prop("C32", title="Layers convert and restrict do exactly what their commands say",
 statement="A convert layer hooks exactly the requested token type; it replaces each token having one of the listed texts with exactly one token with the paired text, the requested type (the original one by default) and the original position only if requested, and lets other tokens through. A restrict layer reports an error for a listed node exactly when the closest enclosing node that is listed as allowing or forbidding is a forbidding one, and touches nothing else.",
 over=["configurations", "inputs"],
 quant="every valid configuration of both layers, every token and every stack of open nodes",
 why="Tests use one or two configurations; a wrong default, a mixed-up pair or a search stopping at the wrong ancestor needs a particular combination of commands and nesting.",
 files=["parser/layers/convert/convert.go", "parser/layers/restrict/restrict.go"],
 mech=[("token hook", "convert layer Init"), ("node hook searches the node stack", "restrict layer Init")],
 observe=["tokens and errors produced by hooks set up by the layers"],
 technique="abstract interpretation of SSA over classes of configurations with symbolic names",
 note="Setup, Init and every returned hook are interpreted abstractly; node stacks have up to 4 nodes, each being of any listed or unlisted name. Trusts lexer.NewToken, token accessors and NodeContext.NodeStack as specified.")

prop("C10", title="Tree editing keeps the tree consistent",
 statement="After any editing operation (adding, removing, detaching, replacing elements, adding siblings) the tree and the removed parts are well-formed: parent, previous, next, first and last child links of all elements agree with each other, and the element is exactly at the documented place, moved from its old one if it had any. Operations given nil, roots, neighbours or the same element twice do what is documented or nothing. The tree built by the standard node hook has exactly the reported tokens and nodes in the reported order.",
 over=["inputs", "histories"],
 quant="every tree shape and every choice of elements, excluding requests to put an element into its own descendant",
 why="Tests edit a couple of trees; errors come up for neighbouring, first, last or only elements or when source and target share a parent (several such defects existed).",
 files=["tree/tree.go"],
 mech=[("link updates", "tree.nodeElement.AddChild, RemoveChild"), ("editing functions", "tree.Detach, Replace, AppendSibling, PrependSibling, AppendChild"), ("tree building", "tree.NodeHook, tree.HookInstance")],
 observe=["accessors of tree.Element and tree.NodeElement"],
 technique="shape analysis: abstract interpretation of SSA over all small heap shapes with symbolic contents",
 note="Every operation is interpreted abstractly on every tree shape with up to 4 elements below the root (5 in thorough mode) plus detached subtrees. Elements are compared by identity only and the operations look at direct neighbours, so bigger trees bring no new case; this is argued, not proven.")

prop("C33", title="Navigation and walking visit exactly the elements they should, in order",
 statement="Functions returning children, ancestors, siblings and neighbouring tokens return exactly the documented elements in the documented order, for any element of any tree. A walker, in either direction, fetches each element of the subtree once with its nesting level, parents first, omitting exactly the children or siblings it is told to skip, never leaves the subtree, and fetches nothing once stopped or finished.",
 over=["inputs", "histories"],
 quant="every tree, subtree, direction and sequence of walker flags",
 why="Tests walk few trees with few flags; empty nodes, last children, flags combined at different levels are not sampled.",
 files=["tree/tree.go"],
 mech=[("flag stack", "tree.Walker.Step"), ("navigation", "tree.NextTokenElement, tree.PrevTokenElement, tree.Children, tree.Ancestors")],
 observe=["tree.Walker.Step", "tree.Walk", "results of navigation functions"],
 technique="shape analysis: abstract interpretation of SSA over all small heap shapes and flag sequences",
 note="Tree shapes have up to 4 elements below the root (3 for the walker; 5 and 4 in thorough mode); all sequences of flags are enumerated, the visitor is opaque.")

prop("C34", title="Selectors, filters and extractors select exactly what they describe",
 statement="A selector applies its transformers in the order they were added to each non-nil input element and returns all outputs in order, without duplicates if told so; it may be applied many times. Search returns topmost acceptable elements of a subtree in document order, the deep search returns all of them. Filter and extractor combinators accept, invert, join and index exactly as documented.",
 over=["inputs", "configurations"],
 quant="every composition of transformers, every set of input elements, every tree and every answer of user-supplied filters and extractors",
 why="Tests use few selectors on one tree; order of transformers, duplicates, nil inputs and nested matches are sampled at best once.",
 files=["tree/tree.go"],
 mech=[("FIFO application", "tree.Selector.Apply"), ("search", "tree.Selector.Search, DeepSearch"), ("combinators", "tree.IsAny, IsAll, IsNot, IsA, IsALiteral, Any, All, Nth")],
 observe=["tree.Selector.Apply", "results of filters and extractors"],
 technique="abstract interpretation of SSA over small shapes with opaque filters and extractors",
 note="Up to 3 transformers, 3 input elements, trees with up to 3 elements below the root (4 in thorough mode); user-supplied functions are opaque, all their answers are enumerated.")

prop("C06", title="Node hooks are called exactly as the grammar rules dictate, layer by layer",
 statement="Between fetching a token and fetching the next one (or finishing) Parse calls exactly the node hooks that the rules applied to the token dictate, in the documented order and with right arguments: pending side tokens, NewNode of the parent, the node hook of the child (the one for its name or else the one for any node), HandleToken, EndNode, then HandleNode of the parent with the result of the same child and the same layer. Each hook layer has its own instances. The result of the root node is that of Parse; a token not belonging to the root node stays in the source queue; with the full source option only side tokens may follow.",
 over=["inputs", "configurations", "histories"],
 quant="every sequence of tokens (of any length), every combination of consuming, finalizing and pushing rules, several layers hooking different nodes; nesting is limited",
 why="Tests use one layer and short inputs; calls go wrong only when several nodes end at once, with pending side tokens, unhooked ancestors, or layers hooking different nodes (such a defect existed).",
 files=["parser/parser.go", "parser/hooks.go", "parser/misc.go"],
 mech=[("rule application, node stack", "ParseContext.applyRule, pushNode, popNode"), ("side tokens", "ParseContext.handleNodeToken, handleNodeSides"), ("default hook", "parser.defaultNodeHook"), ("end of the root node", "ParseContext.parse")],
 observe=["calls of parser.NodeHook and parser.NodeHookInstance", "result of Parser.Parse", "source.Queue.Pos"],
 technique="abstract interpretation of SSA against a typestate monitor, with an opaque lexer and opaque hooks",
 note="Parse is interpreted over a grammar offering each kind of rule in each kind of state; at each fetch the lexer may return any token; states equal at fetches are merged, so token sequences are unbounded. Bounds: nesting of 3 nodes (4 in thorough mode), 2 pending side tokens, 3 layers.")

prop("C16", title="Every token passes through token hooks layer by layer, in order, exactly once",
 statement="Each token fetched from sources passes through all layers of token hooks, from the lowest one to the user's one, and then gets to the parser; in each layer exactly one hook is called: the one for its text (unless literals are not allowed for the type), or else the one for its type, or else the one for any token. A dropped token goes no further; extra tokens go to the upper layers (never to the layer that emitted them), in the order they were emitted, after the token itself when it is emitted. Each hook gets its own context.",
 over=["inputs", "configurations", "histories"],
 quant="every sequence of tokens (of any length), every answer of every token hook (within the alphabet of emitted tokens), one to three hook layers with hooks of all kinds",
 why="Tests use one or two layers and a few inputs; order of tokens goes wrong only when several layers emit or drop tokens at the same time, or when different layers hook literals unknown to the grammar.",
 files=["parser/parser.go", "parser/hooks.go"],
 mech=[("token pipeline", "ParseContext.pullToken, nextToken"), ("hook choice", "ParseContext.handleToken"), ("hook tables", "parser.newHookLayer")],
 observe=["calls of parser.TokenHook", "parser.NodeHookInstance.HandleToken"],
 technique="abstract interpretation of SSA against a monitor of the token pipeline, with an opaque lexer and opaque hooks",
 note="Tokens come from an alphabet of 8 kinds, hooks emit up to 2 extra tokens at a time (the first of up to 4 kinds); states equal at fetches and hook calls are merged, so token sequences are unbounded. The internal queue is modelled as a list (decided by C25), lexers as returning any token.")

prop("C20", title="End-of-file and end-of-input tokens are never lost and never leak",
 statement="For each source exactly one EoF token and, after the last one, exactly one EoI token pass through the hook layers; only hooks for these very types get them. A hook that does not emit such a token cannot drop it: the token follows everything emitted instead of it. EoF tokens never get to the parser; parsing ends at EoI and nothing is fetched after it.",
 over=["inputs", "configurations", "histories"],
 quant="every sequence of tokens, every answer of hooks for EoF, EoI and any token, in one or two layers",
 why="Tests use one layer and one hook answer at a time; a special token gets lost or doubled only for particular combinations of emitted tokens and layers.",
 files=["parser/parser.go"],
 mech=[("special tokens are restored", "ParseContext.handleToken"), ("EoF is dropped", "ParseContext.nextToken")],
 observe=["calls of parser.TokenHook", "result of Parser.Parse"],
 technique="abstract interpretation of SSA against a monitor of the token pipeline, with an opaque lexer and opaque hooks",
 note="The same engine and bounds as for C16. What the lexer does at the end of a source is decided by C21.")

prop("C26", title="Token hooks can emit valid tokens only",
 statement="If a token hook emits a token whose type is not defined by the grammar, is reserved (any token, unknown negative types), or belongs to literals or error tokens, then Parse stops with the EmitWrongTokenError before anything else happens: no further hook is called and nothing is fetched; the offending token is not used. All other types, external, side and special ones included, are accepted in every layer.",
 over=["inputs", "configurations", "histories"],
 quant="every token type as the first or the second emitted token, every layer, every moment of parsing",
 why="Tests emit one or two wrong types from one layer; the check is easily lost for the second token, for another layer, or for a class of types (literals and error tokens were accepted).",
 files=["parser/parser.go"],
 mech=[("emitted tokens are checked", "ParseContext.pullToken"), ("valid types", "Parser.IsValidType")],
 observe=["error returned by Parser.Parse", "calls of hooks"],
 technique="abstract interpretation of SSA against a monitor of the token pipeline, with an opaque lexer and opaque hooks",
 note="The same engine and bounds as for C16; types are a representative of each class (each flag, below the lowest, above the last).")

prop("C08", title="Peeking tokens shows what comes next and leaves no trace",
 statement="Each call of PeekToken returns the next token: first those already emitted by lower hook layers, in order, then those fetched from the source queue, without calling hooks. When the hook returns, the parser and all hooks go on as if nothing had been peeked: the same tokens in the same order from the same sources and positions, and peeking starts from the beginning in the next hook call.",
 over=["inputs", "configurations", "histories"],
 quant="every sequence of tokens, hooks of any layer peeking any number of tokens (up to the bound) in any call, with tokens pending in other layers and several sources in the queue",
 why="Tests peek in one layer with one source; the position in pending tokens, the snapshot of sources, and their reset depend on each other over several hook calls.",
 files=["parser/hooks.go", "parser/parser.go", "source/source.go"],
 mech=[("peeking", "TokenContext.PeekToken"), ("restoring", "TokenContext.restore"), ("source queue snapshot", "source.Queue.Snapshot, Restore")],
 observe=["results of parser.TokenContext.PeekToken", "tokens passed to hooks", "source.Queue.Pos"],
 technique="abstract interpretation of SSA against a monitor of the token pipeline and the source queue, with an opaque lexer and opaque hooks",
 note="Up to 4 tokens are peeked in a call, the source queue has 2 sources with 3 positions each (more in thorough mode), 3 layers; token sequences are unbounded.")

prop("C21", title="The lexer fetches the right token and moves the queue accordingly",
 statement="At each call the lexer skips insignificant matches and returns the token for the first matched described group having a requested type, with the exact text, type, source and position, and moves the queue to the end of the match. If there is no such token the queue stays where it was. A match that is empty or not at the current position, or an error group, gives an error with exact position and does not move the queue. At the end of a source the EoF token is returned and the source is discarded; EoI is returned for an empty queue.",
 over=["inputs", "configurations", "histories"],
 quant="every possible answer of the regular expression engine (any match, any set of groups), every set of requested types, from every position of a queue of up to two sources",
 why="Tests use a few regular expressions whose groups start at the match start; types near 64, undescribed groups, nested groups, insignificant text before an error are not sampled (the queue used to be moved in that case).",
 files=["lexer/lexer.go", "lexer/token.go", "source/source.go"],
 mech=[("group choice", "lexer.Lexer.matchToken"), ("queue movement", "lexer.Lexer.Next, NextOf"), ("positions", "source.NewPos")],
 observe=["results of lexer.Lexer.Next and NextOf", "source.Queue.Pos"],
 technique="abstract interpretation of SSA against a model of tokenizing, with an opaque regular expression engine",
 note="Regexp.FindSubmatchIndex may return any well-formed answer for up to 4 groups on contents of up to 3 bytes; states are merged between calls, so call sequences are unbounded. Line and column numbers of non-ASCII texts are followed concretely on these contents only.")

prop("C14", title="Errors carry a proper code, message and position",
 statement="Every error the library makes has a non-zero code of the class reserved for its package, equal to no other exported code, and every exported code is really used. Its message is never empty, is formatted with matching arguments (a text with no arguments is taken literally) and contains the source name, line and column when they are known. An error made for a token or a position reports source name, line and column of it, and a function that succeeds never returns an error value holding a nil pointer.",
 over=["inputs"],
 quant="every place in the library that makes or returns an error",
 why="Tests look at codes of common errors only; a lost position, a code of another error or a broken format of a rare error is not seen.",
 files=["llx.go", "parser/errors.go", "langdef/errors.go", "lexer/lexer.go", "parser/layers/common/errors.go"],
 mech=[("errors", "llx.NewError, FormatError, FormatErrorPos"), ("codes", "constants of langdef, lexer, parser, layers/common")],
 observe=["llx.Error fields", "results of exported functions"],
 technique="enumeration of error constructions over SSA with constant and nilness dataflow, and abstract interpretation of error constructors",
 note="Codes and messages that are not constant in the source are not judged; which code is right for which situation is decided only where a code is left unused.")

prop("C17", title="Tokens match rules by literal, then type, then fallback",
 statement="For each token the parser applies the rule of the current state for the literal equal to the token text (text in upper case for caseless token types), if there is none - the rule for the token type unless the text is a reserved literal, if there is none - the fallback rule. Tokens of types marked with !raw (no literals) never match literals. A token matched by none of them is an error.",
 over=["inputs", "configurations"],
 quant="every sequence of tokens matching or not matching literals of each kind, in states with all combinations of rules for literals, types and fallback",
 why="Tests check a few literals in a few states; a wrong priority shows only in a state having the particular combination of rules.",
 files=["parser/parser.go"],
 mech=[("matching keys", "ParseContext.possibleRuleKeys"), ("rules search", "ParseContext.findRules")],
 observe=["calls of parser.NodeHookInstance methods", "result of Parser.Parse"],
 technique="abstract interpretation of SSA against a monitor of grammar rules, with an opaque lexer and opaque hooks",
 note="A fixed grammar with 5 states and 11 kinds of tokens; token sequences are unbounded. The same engine as for C06.")

prop("C30", title="Lookahead chooses the variant with the longest run of tokens",
 statement="When several rules match a token, the parser fetches tokens, calling no node hooks, while at least two variants are possible; a variant is discarded when it does not accept a token or when its node ends while another variant accepts the next token. The variant left (the one which ended last if none accepts the next token) is applied: node hooks get exactly the same calls as if it were the only one. Side tokens do not affect the choice, every fetched token is then processed exactly once or returned to the source queue.",
 over=["inputs", "histories"],
 quant="every sequence of tokens, in grammars with conflicts between nested nodes, states, literals, and with conflicts met while resolving conflicts",
 why="Which variant wins depends on tokens several positions ahead and on branches sharing memory; tests have a few inputs.",
 files=["parser/parser.go", "parser/misc.go"],
 mech=[("branches", "ParseContext.resolveConflict"), ("replay", "ParseContext.nextRule"), ("tokens beyond the root node", "ParseContext.returnTokens")],
 observe=["calls of parser.NodeHookInstance methods", "result of Parser.Parse", "source.Queue position after Parse"],
 technique="abstract interpretation of SSA against a model of parsing branches, with an opaque lexer and opaque hooks",
 note="Up to 3 tokens of lookahead (4 in thorough mode), 4 grammars; when several variants end at the same token none is demanded. When no variant is left only the error is checked.")

prop("C19", title="Unexpected tokens are reported as such, with their own position",
 statement="If no rule of the current state accepts a token, then Parse returns *llx.Error with UnexpectedEoiError code for the end of input and UnexpectedTokenError for any other token; the error contains the position of that very token, its type name and text, and names a token that is accepted in this state. Tokens left after a full source is parsed are reported as RemainingSourceError with their position.",
 over=["inputs", "configurations"],
 quant="every sequence of tokens, every state kind: rules for types, literals, end of input, conflicting rules only",
 why="Tests look at codes of a few errors; names and positions depend on the state and the token; special token types were used as table indexes (panic).",
 files=["parser/parser.go", "parser/errors.go"],
 mech=[("errors", "ParseContext.parse"), ("expected token", "ParseContext.getExpectedToken"), ("messages", "unexpectedTokenError, unexpectedEofError, remainingSourceError")],
 observe=["error returned by Parser.Parse"],
 technique="abstract interpretation of SSA (with constant folding of messages) against a monitor of grammar rules",
 note="A fixed grammar with 8 states; the message must contain the names, its other words are free. The same engine as for C06.")

prop("C25", title="Source queue and internal queue behave like lists whatever their history is",
 statement="After any sequence of operations the source queue has the documented current source, position (always within the source), end-of-file flag and content; appended, prepended, discarded sources come in the documented order with their positions preserved; restoring a snapshot brings back exactly the state it was taken at, whatever happened since. The internal queue of tokens and rules, a ring buffer that grows and shrinks, always holds exactly the items of the equivalent list and shares no memory with slices it is filled from or returns.",
 over=["histories", "inputs"],
 quant="every sequence of operations of any length, queues of a limited size, boundary arguments of Skip, Rewind and Seek",
 why="Tests run a few fixed sequences; ring buffer errors need a particular relation of head, tail and size reached by long histories.",
 files=["source/source.go", "internal/queue/queue.go"],
 mech=[("ring buffer", "queue.Queue.Append, Prepend, First, Last, Peek, Fill, Items"), ("source order", "source.Queue.Append, Prepend, NextSource"), ("positions", "source.Queue.Skip, Rewind, Seek"), ("snapshots", "source.Queue.Snapshot, Restore")],
 observe=["accessors of source.Queue", "results of queue.Queue methods"],
 technique="abstract interpretation of SSA of a client performing any operation at any moment, against a list model",
 note="Up to 2 to 6 sources or items in any order of operations, up to 40 items when the queue is used in FIFO order (more in thorough mode); states are merged between operations, so histories are unbounded.")

prop("C36", title="Grammar tables accept exactly the language of the definition",
 statement="A node defined in langdef accepts exactly the sequences of tokens its definition describes (lists, variants, nested, optional, and repeated lists, references to nodes); ambiguous definitions keep all the alternatives, and no state makes the parser apply rules forever without consuming a token. Definitions with undefined, unused, left-recursive or unresolvable nodes are rejected with the documented error code, all other ones are accepted whatever the order of nodes is. Each state lists the token types needed to match its rules and side tokens, and no other ones.",
 over=["programs", "inputs"],
 quant="every shape of a node definition up to a bound, every order of definitions of several nodes, every sequence of tokens",
 why="Tests compare tables made of a few definitions; a mistake shows only for a particular nesting of optional and repeated lists, or order of nodes.",
 files=["langdef/chunks.go", "langdef/result.go", "langdef/parser.go"],
 mech=[("items of lists", "groupChunk, variantChunk"), ("states", "parseResult.AddRule, BypassRule, CopyRules, BuildGrammar"), ("checks of nodes", "findUndefinedNodes, findUnusedNodes, resolveDependencies, findRecursions"), ("token types", "assignTokenGroups, assignStateTokenTypes")],
 observe=["grammar.Grammar returned by langdef.Parse", "language accepted by parser.Parser"],
 technique="abstract interpretation of SSA of the translation, then comparison of automata (sets of states of tables against those of the definition)",
 note="Definitions with up to 5 tokens (more in thorough mode), 3 nodes besides the root one. One known deviation (shared-loop) is listed in known_findings.txt. Parsing of the definition's text, definitions having only optional items, and a repeated list followed by an item starting with the same token are out of scope.")

prop("C11", title="The generated grammar file reproduces the grammar exactly",
 statement="The Go file or JSON file made by llxgen, once compiled or loaded, gives a grammar equal to the one langdef builds of the same definition, whatever characters names, literals and regular expressions have.",
 over=["programs", "inputs"],
 quant="every grammar definition, every output format and package or variable name",
 why="Quoting matters only for unusual names and expressions; tests have few of them.",
 files=["cmd/llxgen/llxgen.go"], mech=[("output", "cmd/llxgen")], observe=["output files of llxgen"],
 na="It needs equality between a value and the meaning of generated text (fmt %#v, json and the Go compiler composed with string quoting), which no dataflow or typestate rule in reach expresses; errors of the generator are covered by C04, its determinism by C05.")

prop("C18", title="No input makes the library panic",
 statement="Neither loading of a grammar definition, nor construction of a parser, nor parsing of any source panics; incorrect definitions give errors, correct ones are accepted.",
 over=["inputs", "programs"],
 quant="every grammar definition, every source content, every sequence of documented calls",
 why="A panic needs an index, a length or a nil pointer of an unlucky value.",
 files=["langdef/parser.go", "lexer/lexer.go", "parser/parser.go", "source/source.go"], mech=[("indexes", "langdef, lexer, parser")], observe=["any public function"],
 na="Absence of panics depends on relations between run-time quantities (table contents, regexp match positions, lengths) which interval facts cannot bound for the whole library; panics reachable within the worlds interpreted by C06, C16, C17, C19, C21, C25, C30, C32 to C34 and C36 are reported by those checks.")

prop("C22", title="Directives and token definitions get exactly the documented effect",
 statement="Each directive of a grammar definition sets the documented flags and groups of the tokens and literals it lists, whatever their order and number is; contradictory or premature directives are rejected.",
 over=["programs"],
 quant="every list of directives, tokens and literals in any order",
 why="Effects of several directives on one literal combine; tests apply one or two directives.",
 files=["langdef/parser.go"], mech=[("directives", "langdef.parseContext")], observe=["grammar.Grammar.Tokens"],
 na="The text of a definition is processed by a lexer driven by a regular expression: a static argument needs the language of that expression and of processed strings; interpreting the parser on chosen texts would be testing. Translation following the text parsing is covered by C36.")

prop("C23", title="Loading of a grammar definition terminates",
 statement="Parsing of any text as a grammar definition ends with a grammar or an error.",
 over=["inputs"], quant="every text, including truncated ones",
 why="A loop needs a text truncated at a particular place.",
 files=["langdef/parser.go"], mech=[("loops reading tokens", "langdef.parseContext")], observe=["langdef.Parse"],
 na="Needs a ranking argument over lexer progress (bytes consumed by a regexp match) and over sets of first tokens; no sound automatic one is in reach. Endless loops of the translation met within the bounds of C36 are reported there.")

prop("C24", title="Line and column numbers are right",
 statement="The line and column reported for a position of a source are those obtained by counting lines from its beginning, for any content and any sequence of queries; newline normalisation replaces exactly CR and CR LF.",
 over=["inputs", "histories"], quant="every content and position, any order of queries",
 why="The line cache and binary search work for sampled positions.",
 files=["source/source.go"], mech=[("cache of line starts", "source.Source.LineCol"), ("normalisation", "source.NormalizeNls")], observe=["source.Source.LineCol", "source.NormalizeNls"],
 na="Functional correctness of arithmetic over unbounded byte arrays (search over line starts) needs inductive reasoning about contents, beyond dataflow; that positions in errors and tokens are those of the right token is covered by C14 and C21.")

prop("C35", title="The indent layer emits tokens according to the indentation",
 statement="Layer indent emits an indent or dedent token exactly when the indentation of a line grows or shrinks, balanced at the end of input, and rejects inconsistent indentation, whatever mix of spaces, tabs and empty lines is used.",
 over=["inputs", "configurations"], quant="every source, every configuration of the layer",
 why="Depends on the history of indentations.",
 files=["parser/layers/indent/indent.go"], mech=[("stack of indents", "indent.layerState")], observe=["tokens seen by the next layer"],
 na="Indentation is compared as byte prefixes of unbounded text cut by regular expressions; a static model of it would restate the code. Its configuration is covered by C13, absence of writes to sources and of shared state by C01 and C02, validity of emitted tokens by C26.")

prop("C37", title="Sets of integers obey set algebra",
 statement="Union, subtraction, copying, membership and listing of the internal integer set behave as for mathematical sets for any elements, listing is ascending.",
 over=["inputs", "histories"], quant="every set of integers, any sequence of operations",
 why="The set is a list of chunks of bits; mistakes need particular gaps between elements.",
 files=["internal/ints/intset.go"], mech=[("chunks", "ints.Set")], observe=["ints.Set methods"],
 na="Needs bit-precise reasoning about unbounded lists of chunks (solver territory); small sets are interpreted exactly as a part of C36.")
