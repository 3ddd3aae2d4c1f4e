#!/usr/bin/env python3
"""Writes properties.jsonl (kept here so that it stays reviewable)."""
import json, os
P = []
CORE = "packages/stylist-core/src/"
ST = "packages/stylist/src/"
MA = "packages/stylist-macros/src/"
def p(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

p("C01", "Parsing accounts for every token of an accepted style string",
  "When a style string is accepted, the stylesheet it yields accounts for all of its text: every declaration, selector, at-rule condition and nesting level appears exactly once, in source order, under the right parent, and with its text unchanged apart from surrounding whitespace and comments. Nothing is dropped, merged, duplicated or invented, and the text of double-quoted strings (escapes included) is opaque. Text that cannot be accounted for in this way is rejected with an error instead of being partly kept. Well-formed parts are accepted in whatever order they follow one another (each declaration before another part ended by its semicolon).",
  ["inputs"], "every style string: arbitrary byte strings up to the bound, and every stylesheet of the grammar up to the bound in shape with arbitrary leaf characters",
  "The unit tests compare ~40 hand-written strings; a dropped or merged token shows only for particular adjacent tokens, delimiters and characters.",
  [CORE+"parser.rs", CORE+"ast/sheet.rs"],
  [("grammar alternatives and many0/many1 loops; leftover input turned into an error", CORE+"parser.rs Parser::sheet/scope/block/attributes"), ("trimming of values, selectors and conditions", CORE+"parser.rs style_attr_value/selector/at_rule_condition")],
  ["str::parse::<Sheet>()", "Sheet (its contents)"])
p("C02", "Parsing any string terminates without panicking",
  "Giving any string to the parser - malformed, truncated, multi-byte, deeply odd - returns either a stylesheet or an error, without panicking, hanging or aborting. An error leaves the process usable: later calls behave as if the failed one had not happened.",
  ["inputs", "histories"], "every byte string that is valid UTF-8, up to the bound; every such string followed by a further parse",
  "Only a few malformed inputs are tested; the parser slices strings, trims, formats error positions and holds a global lock while parsing, each of which can fail for particular inputs only.",
  [CORE+"parser.rs", CORE+"ast/sheet.rs", CORE+"error.rs"],
  [("nom combinators with progress guards, error formatting", CORE+"parser.rs Parser::parse"), ("global parse cache behind a mutex", CORE+"ast/sheet.rs from_str")],
  ["str::parse::<Sheet>()"], [("CACHED_SHEETS", "process-wide memo of parsed strings", CORE+"ast/sheet.rs")])
p("C03", "Rendered style text parses back and re-renders identically",
  "For every accepted style string, the text rendered for a class name or for a global style is itself accepted by the parser, and rendering that result as a global style gives the same text again. In particular creating a style from a string the parser accepts never fails or panics on the rendered text.",
  ["inputs"], "every accepted style string up to the bound, scoped and global",
  "Debug builds re-parse every rendered style and panic if that fails, so one accepted string whose rendering does not parse crashes the application; tests only cover a few fixed sheets.",
  [CORE+"parser.rs", CORE+"ast/*.rs", ST+"manager/mod.rs"],
  [("text of conditions and values is kept verbatim by both directions", CORE+"parser.rs, "+CORE+"ast"), ("debug re-parse of the rendered style", ST+"manager/mod.rs get_or_register_style")],
  ["Sheet::to_style_str", "str::parse::<Sheet>()", "Style::new"])
p("C04", "Whitespace, comments and optional delimiters do not change meaning",
  "Adding, removing or changing whitespace and comments around the declarations, blocks, at-rules, keys and delimiters of a style string, or omitting the last semicolon of a block or adding a trailing comma to a selector list, does not change the stylesheet it denotes. Comments may contain any characters, including braces, semicolons, quotes, stars and slashes. (White space and comments inside the text of a value, a selector or a condition belong to that text.)",
  ["inputs"], "every stylesheet shape up to the bound, with arbitrary trivia (spaces, tabs, line breaks, comments with arbitrary bodies) at the token boundaries",
  "Existing tests place a handful of comments at a handful of places; each boundary x trivia form x neighbouring token is a separate case.",
  [CORE+"parser.rs"], [("sp/cmt/trimmed around tokens", CORE+"parser.rs")], ["str::parse::<Sheet>()"])
p("C05", "Scoped styles select only through their own class",
  "Rendered for a class name, every selector of a stylesheet is anchored at that class: each `&` and each `:root` becomes the class selector, a selector without them starting with `:` is attached directly to the class, any other is a descendant of the class, and declarations without a selector apply to the class itself. Every selector of a list is scoped individually and its own text is otherwise unchanged; declarations, values and at-rule conditions are not rewritten.",
  ["inputs"], "every stylesheet up to the bound: any number of selectors in a list, selector texts of arbitrary characters split over arbitrary fragments, any class name",
  "Tests cover six selector texts; wrong results need particular combinations (several `&`, `&` with `:root`, `&` across fragments, a leading `:` with `&`, lists).",
  [CORE+"ast/selector.rs", CORE+"ast/block.rs", CORE+"ast/context.rs"],
  [("substitution of & and :root, prefixing", CORE+"ast/selector.rs write_style"), ("class selector for selector-less declarations", CORE+"ast/context.rs with_block_condition")],
  ["ToStyleStr::to_style_str(Some(class))", "Style::get_style_str"])
p("C06", "Global styles render selectors as written",
  "Rendered globally, every selector is emitted as written except that each `&` becomes `:root`, and declarations without a selector apply to `:root`; no class name ever appears. Declarations, values and at-rule conditions are not rewritten.",
  ["inputs"], "every stylesheet up to the bound, selector texts of arbitrary characters",
  "A few global sheets are tested with one `&` or none.",
  [CORE+"ast/selector.rs", CORE+"ast/context.rs", ST+"global_style.rs"],
  [("the branch without a class name", CORE+"ast/selector.rs write_style"), ("default :root", CORE+"ast/context.rs with_block_condition")],
  ["ToStyleStr::to_style_str(None)", "GlobalStyle::get_style_str"])
p("C07", "Rendering is balanced and keeps declarations under their own conditions",
  "The text rendered for any stylesheet has balanced braces and contains each declaration exactly once, in order, directly inside exactly the at-rules and the selector it has in the stylesheet - wherever at-rules, blocks and declarations are interleaved or nested. Blocks and at-rules without declarations leave nothing behind, except that `@keyframes` rules are always present.",
  ["inputs"], "every stylesheet tree up to the bound (nesting, order, emptiness, equal and different neighbouring conditions), scoped and global",
  "The writer opens and closes braces lazily depending on what was written before, so errors need particular orders of nested content that the few fixed sheets do not contain.",
  [CORE+"ast/context.rs", CORE+"ast/rule.rs", CORE+"ast/block.rs", CORE+"ast/style_attr.rs", CORE+"ast/rule_block_content.rs"],
  [("lazily opened condition contexts, closing up to the common parent", CORE+"ast/context.rs start/finish/close_until_common_parent")],
  ["ToStyleStr::to_style_str"])
p("C08", "Equal styles share one registration, different styles never do",
  "Within one manager, creating a style equal in kind (scoped or global), prefix and stylesheet to one still registered returns that same style (same id, same text), no matter how the stylesheet was obtained; a style differing in any of these gets its own registration with its own text. Re-creating never renders again, panics or replaces the earlier style, and a failed creation registers nothing.",
  ["inputs", "histories"], "every sequence of style creations up to the bound over kinds, prefixes and stylesheets of arbitrary leaf characters",
  "Tests create the same string twice; keys that differ in one component only, or equal stylesheets of different origin, are untested.",
  [ST+"manager/mod.rs", ST+"manager/registry.rs", ST+"manager/key.rs", ST+"style.rs", ST+"global_style.rs"],
  [("registry lookup before creation", ST+"manager/mod.rs get_or_register_style"), ("derived Eq/Hash of the key", ST+"manager/key.rs StyleKey")],
  ["Style::*", "GlobalStyle::*", "id()", "get_style_str()"], [("styles", "registry map", ST+"manager/registry.rs")])
p("C09", "Style ids are prefix plus eight alphanumeric characters",
  "Whatever the random source returns, a scoped style's class name is its prefix, a dash and exactly eight ASCII letters or digits, and a global style's id is its prefix, `-global-` and exactly eight such characters; the class name is the id and is what the rendered text uses. All entropy characters come from the random source, so two styles get equal suffixes only if the source repeats.",
  ["inputs"], "every state of the random source, every prefix up to the bound, scoped and global",
  "A random id is sampled once per test run; a bad character or short suffix can be rare.",
  [ST+"utils.rs", ST+"manager/key.rs"], [("eight alphanumeric characters from the generator", ST+"utils.rs get_rand_str"), ("id formats", ST+"manager/key.rs new_scoped/new_global")],
  ["Style::id", "Style::get_class_name", "GlobalStyle::id"])
p("C10", "Managers are isolated from each other",
  "A style belongs to exactly the manager it was created with: creating, unregistering or exporting styles with one manager never changes what another manager holds, returns or exports, even for equal stylesheets. A manager's prefix is used for the styles created with it unless one is given explicitly, and clones of a manager are the same manager.",
  ["histories"], "every sequence of operations up to the bound over two managers, the default manager and clones of them",
  "Tests use one manager at a time.",
  [ST+"manager/mod.rs", ST+"style.rs", ST+"global_style.rs", ST+"style_src.rs"],
  [("registry per manager, weak back reference", ST+"manager/mod.rs"), ("manager and prefix passed through", ST+"style.rs create_impl")],
  ["Style::*", "StyleManager", "StyleData"])
p("C11", "Unregistering forgets exactly that style and keeps handles usable",
  "After a style is unregistered, creating an equal one makes a fresh style with a new id, while existing handles keep their id and text; all other styles of the manager stay registered and unchanged. Until it is unregistered a style stays registered even when all handles to it are dropped, and dropping handles or the manager in any order, or unregistering after the manager is gone, never panics.",
  ["histories"], "every history up to the bound of create, clone, drop, unregister and manager drop over several styles",
  "Tests unregister once, right after creation.",
  [ST+"manager/mod.rs", ST+"manager/registry.rs", ST+"manager/content.rs"],
  [("unregister by key through a weak manager reference", ST+"manager/content.rs unregister"), ("registry owns a reference", ST+"manager/registry.rs")],
  ["Style::unregister", "GlobalStyle::unregister", "drop"])
p("C12", "A parse result depends only on the string parsed",
  "Parsing a string gives the same result (stylesheet or error) no matter what was parsed before, how often, or whether earlier parses failed.",
  ["histories"], "every sequence of parses of strings up to the bound, including equal, similar and failing ones",
  "Results are memoised process-wide; every test parses its own string once.",
  [CORE+"ast/sheet.rs"], [("cache keyed by the exact string, filled on success only", CORE+"ast/sheet.rs feat_parser")],
  ["str::parse::<Sheet>()", "StyleSource::try_from"], [("CACHED_SHEETS", "memo table", CORE+"ast/sheet.rs")])
p("C13", "Static markup carries every style once, in order, unbreakably",
  "The static markup written for a manager's collected style data contains, for each style registered with that manager in order of first registration, exactly one `<style data-style=\"ID\">` element with the style's id and its text. No style text can end its element early or change the markup around it, and text that contains neither `</style` nor `<!--` is written unchanged.",
  ["inputs", "histories"], "every sequence of registrations up to the bound with style texts containing arbitrary characters",
  "Tests render one or two harmless styles.",
  [ST+"manager/ssr.rs", ST+"manager/mod.rs"], [("style data appended on first registration", ST+"manager/mod.rs get_or_register_style"), ("escaped writing", ST+"manager/ssr.rs write_static_markup")],
  ["render_static", "StyleData::write_static_markup"])
p("C14", "Hydrated styles equal the styles rendered on the server",
  "After a manager loads style data collected on the server (directly or through serialisation), creating any of those styles with it returns the server's id and the very text the server rendered, for scoped and global styles alike, and styles not in the data get fresh registrations. Loading the same data again changes nothing.",
  ["inputs", "histories"], "every set of server-side registrations up to the bound (kinds, prefixes, stylesheets), then every order of client-side creations",
  "The only test hydrates one scoped style and compares the id.",
  [ST+"manager/mod.rs", ST+"manager/ssr.rs"], [("registry entries rebuilt from the data", ST+"manager/mod.rs load_style_data"), ("serialised keys and ids", ST+"manager/mod.rs StyleDataContent")],
  ["StyleManager::load_style_data", "Style::new_with_manager", "GlobalStyle::new_with_manager"])
p("C15", "Serialising stylesheets and style data loses nothing",
  "A stylesheet serialised and read back, in a self-describing or a compact binary format, is equal to the original, renders identically, and hashes identically; style data read back keeps its number and order of styles with their ids, kinds, prefixes and stylesheets.",
  ["inputs"], "every stylesheet up to the bound in shape with arbitrary leaf characters, borrowed or owned",
  "No test serialises a stylesheet.",
  [CORE+"ast/*.rs", CORE+"bow.rs", ST+"manager/mod.rs", ST+"manager/key.rs"], [("derived and manual serde implementations", CORE+"ast, "+CORE+"bow.rs")],
  ["Serialize/Deserialize of Sheet and StyleData"])
p("C16", "A literal in a macro means what the same text means at run time",
  "A string literal without interpolation given to the style macros produces the stylesheet that parsing the same text at run time gives (with `$${` standing for `${`): the same rules, blocks and declarations with the same texts, rendering identically. It is rejected at compile time exactly when run-time parsing would fail. All style macros build the same stylesheet and wrap it in the type they are named for.",
  ["inputs", "programs"], "every literal text up to the bound over the syntax-relevant characters, and every stylesheet shape up to the bound",
  "Tests compare rendered output of a few literals.",
  [MA+"literal/*.rs", MA+"output/*.rs"], [("conversion of the parsed sheet into output tokens", MA+"literal/to_output_with_args.rs"), ("token output", MA+"output/*.rs")],
  ["css!/style!/global_style! with a string literal"])
p("C17", "Interpolated values are substituted verbatim at exactly their places",
  "With interpolation, each `${name}` in a literal is replaced by the text of the argument of that name, every occurrence, wherever it stands in a selector, at-rule condition or value; the surrounding literal text is unchanged and the evaluation equals the literal with the values written in place, as one opaque piece. A placeholder without an argument, an argument never used, or an argument given twice is a compile error.",
  ["inputs", "programs"], "every placement of up to the bound of placeholders and arguments, with arbitrary argument texts",
  "Tests use one or two placeholders in fixed places.",
  [MA+"literal/*.rs", MA+"output/*.rs"], [("argument lookup and usage tracking", MA+"literal/mod.rs, "+MA+"literal/to_output_with_args.rs")],
  ["css!/style! with arguments"])
p("C18", "Splitting a format string keeps all of its text",
  "Splitting a literal into text and placeholders loses and reorders nothing: writing the pieces back gives the literal, `$${` denotes a literal `${`, and every other text that is no placeholder is kept as it is. Malformed placeholders are reported and never silently swallowed.",
  ["inputs"], "every string up to the bound over the characters that matter to the splitter",
  "Seven fixed strings are tested.",
  [MA+"literal/fstring.rs"], [("fragment parser", MA+"literal/fstring.rs")], ["css!/style! with a string literal", "fstring fragments"])
p("C19", "Inline styles are spaced by their tokens, as documented",
  "In inline (token) styles, whitespace in the source does not matter (except that adjoining names need it to be names): the text produced depends on the tokens alone. A space stands between two neighbouring tokens exactly if the left one is a name, a number, a string, a closing bracket, `*` or `&` and the right one is a name, a number, a string, `*` or `#`; additionally between `and`, `or` or `not` and an opening parenthesis in at-rule conditions. Names joined by dashes are one token, and there is never a space next to an interpolation.",
  ["inputs", "programs"], "every sequence of up to the bound of tokens of the kinds that occur in selectors, values and conditions, with and without whitespace between them, in each kind of place",
  "A dozen fixed inline styles are tested.",
  [MA+"spacing_iterator.rs", MA+"inline/component_value/*.rs", MA+"inline/parse/*.rs"], [("spacing between component values", MA+"spacing_iterator.rs"), ("which neighbours are spaced", MA+"inline/component_value/mod.rs")],
  ["css!/style! with inline tokens"])
p("C20", "Static styles are built once, dynamic styles on every evaluation",
  "A macro invocation without run-time expressions yields the same stylesheet on every evaluation (built once and shared), and one whose interpolated expressions can change yields, on every evaluation, the stylesheet for the current values and never one remembered from an earlier evaluation.",
  ["programs", "histories"], "every macro input up to the bound with and without interpolation in each position, evaluated repeatedly with changing values",
  "Tests evaluate each macro once.",
  [MA+"output/maybe_static.rs", MA+"output/context.rs", MA+"output/sheet.rs", MA+"output/cow_str.rs"], [("static-ness tracked bottom-up", MA+"output/context.rs")],
  ["css!/style! evaluated repeatedly"])
p("C21", "Inline macro input is never silently dropped or reordered",
  "Every token of an accepted inline style is represented in the produced stylesheet: every declaration, selector, at-rule and nested block appears exactly once, in order and under the right parent, with all its tokens and interpolations. (The comma ending a selector list may go, a block without a selector is part of its parent, and `@name cond;` is an at-rule with nothing in it.) Input that cannot be represented is a compile error.",
  ["inputs", "programs"], "every inline token sequence up to the bound",
  "Tests cover a few fixed inline styles and a few compile errors.",
  [MA+"inline/**/*.rs", MA+"output/*.rs"], [("recursive descent over tokens", MA+"inline/parse/*.rs")], ["css!/style! with inline tokens"])
p("C22", "Inline and literal forms of one style agree",
  "A style written inline (as tokens) yields the stylesheet obtained from its text as a literal or at run time, if the text is spaced as inline styles are: same structure, same selectors and conditions, same declarations, in the same order. `${expr}` in inline styles is replaced by the displayed value, wherever it stands in a selector, condition or value.",
  ["programs"], "every stylesheet up to the bound over the constructs both forms support",
  "Two or three styles are tested in both forms.",
  [MA+"inline/**/*.rs", MA+"output/*.rs", CORE+"parser.rs"], [("both front ends feed the same output", MA+"output/*.rs")], ["css! inline and literal"])
p("C23", "Equality and hashing see contents, not representation",
  "Stylesheets that are structurally the same compare equal and hash alike whether their parts are borrowed statics, owned or boxed, cloned, or read back from serialised form; stylesheets that differ in any part (order, kind, text, fragments' text) compare unequal.",
  ["inputs"], "every pair of stylesheets up to the bound in shape with arbitrary leaf characters, in all borrowed/owned mixes",
  "No test compares borrowed with owned forms; registry sharing between compile-time and run-time sheets depends on it.",
  [CORE+"bow.rs", CORE+"ast/*.rs"], [("manual PartialEq/Hash/Clone of Bow", CORE+"bow.rs"), ("derived impls", CORE+"ast/*.rs")],
  ["PartialEq/Hash/Clone of Sheet and Bow"])
p("C24", "A style used as a component's classes names that style exactly",
  "Converting a style or a style source into component classes yields the class name of the style registered for that source with the manager it carries (the default manager otherwise) and nothing that hides or replaces it; equal sources on the same manager give the same class, and sources bound to different managers are registered with their own manager.",
  ["inputs", "histories"], "every sequence of conversions up to the bound over sources, managers and conversion forms",
  "Each conversion is tested once on the default manager.",
  [ST+"yew/mod.rs", ST+"style_src.rs", ST+"style.rs"], [("From/IntoPropValue conversions", ST+"yew/mod.rs"), ("manager carried by the source", ST+"style_src.rs into_style")],
  ["Classes::from(Style)", "Classes::from(StyleSource)", "IntoPropValue"])
p("C25", "Style elements in the document follow registration",
  "In a browser, a style registered with a manager is mounted as exactly one style element, holding its rendered text and its id, in that manager's container - after everything there if styles are appended, else before everything - and nowhere else; equal styles share it, styles loaded from the server keep the element they came with. The element stays while the style is registered or a handle of it is alive and is removed, wherever the container is, once it is neither. A style that cannot be mounted is an error and leaves nothing behind.",
  ["histories"], "every history up to the bound of creations, unregistrations, handle drops and manager drops over managers with containers of any kind",
  "The browser tests mount one style in the document's head; order, other containers and removal after unregistering are not tested.",
  [ST+"manager/mod.rs", ST+"manager/content.rs", ST+"manager/key.rs", ST+"arch.rs"], [("mount/unmount through web-sys", ST+"manager/mod.rs mount/unmount"), ("removal with the last handle", ST+"manager/content.rs Drop")], ["the container's child nodes"])
p("C26", "Media-query hooks report the current match state",
  "A component using use_media_query or use_prepared_media_query shows, whenever the browser's queue of tasks is empty, whether its query matches now: after the media change, after the component's query changes, from its first rendering on. Each mounted component keeps exactly one listener, for its current query, and none once it is unmounted. With use_prepared_media_query the server renders the fallback and the first rendering while hydrating uses the server's value, whatever matches by then.",
  ["histories"], "every history up to the bound of media changes, query changes, mounting and unmounting, at any moment between tasks, with and without server rendering",
  "The unit tests run without a browser; none uses the hooks.",
  [ST+"yew/hooks/use_media_query.rs"], [("state read first, then updated by an effect with an event listener", ST+"yew/hooks/use_media_query.rs use_media_query"), ("prepared state from the server", ST+"yew/hooks/use_media_query.rs use_prepared_media_query")], ["the component's output in the document", "listeners of media-query lists"])
p("C27", "Components use and hand over the styles of their own manager",
  "In a tree of components, every style a component uses (use_style, use_style!, css! in a styled component, Global) is registered with the manager of the nearest enclosing provider - the default manager where there is none - once for equal styles, and with no other manager; the class put on an element is that of that style. A global style is registered - in a browser: in the manager's container - while its component is mounted and not after; updating the tree (other styles, components, managers) leaves exactly what the new tree and its scoped styles so far need. Each provider hands over to the client all styles its manager collected, so that a manager loading them gives equal styles the same ids: hydrating a page changes neither its classes nor its style elements.",
  ["inputs", "programs"], "every component tree up to the bound in nodes, kinds, nesting and managers, with equal or different styles",
  "Tests render one component below at most one provider.",
  [ST+"yew/*.rs", ST+"yew/hooks/*.rs", MA+"styled_component.rs"], [("manager from the context", ST+"yew/hooks/use_style.rs, "+ST+"yew/provider.rs, "+ST+"yew/global.rs"), ("style data handed over as transitive state", ST+"yew/provider.rs")],
  ["server-rendered markup", "the managers' style data"])
p("C28", "A styled component is the function that was written",
  "#[styled_component], #[styled_component(Name)] and #[styled_component_impl] keep the function they are put on: its other attributes in their order, visibility, qualifiers, name, generics, parameters, result and where clause, and its body, once and unchanged, before which a css! of its own is in scope. styled_component makes it a function component of the given name, or of the function's name if none is given; styled_component_impl adds no component. Whatever is not a function, and any other argument, is a compile error.",
  ["programs"], "every function made of up to two or three of the listed forms of its parts and every body up to the bound, every short argument list",
  "The tests apply the attributes to a handful of plain functions.",
  [MA+"styled_component.rs", MA+"styled_component_impl.rs"], [("the function is taken apart and put together again", MA+"styled_component_impl.rs styled_component_impl_impl"), ("component name", MA+"styled_component.rs styled_component_impl")], ["the token stream produced by the attribute macros"])
p("C29", "Counted style ids never repeat, not even with those of the server",
  "Built without the `random` feature, a style's id is its prefix, `-` (or `-global-`), `style-` and a decimal number, it is the class name and is what the rendered text uses, and no two different styles of a page get the same id: whatever managers they are created in, whatever was unregistered or dropped in between, and also when a manager has taken over style data of a server, where ids were counted by another process. Everything else said of registrations, handles and hydration (C08, C10, C11, C14) holds in this configuration too.",
  ["inputs", "histories"], "every history of creations and unregistrations up to the bound over several managers; every style data up to the bound with any numbers in its ids, then every creation",
  "No test builds without `random`, and in a test the server and the browser share one process and so one counter.",
  [ST+"utils.rs", ST+"manager/key.rs", ST+"manager/mod.rs"],
  [("the counter", ST+"utils.rs get_next_style_id"), ("ids taken over from a server", ST+"manager/mod.rs StyleManager::load_style_data")],
  ["Style::id()", "GlobalStyle::id()", "Style::get_class_name()", "StyleManager::load_style_data()"])
path = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(path, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=True) + "\n")
print(len(P))
