"""Which harnesses decide which property, and within what bounds."""


def E(crate, entry, bound, cover=(), **kw):
    return dict(crate=crate, entry=entry, bound=bound, cover=list(cover), **kw)


core = lambda *a, **k: E("core", *a, **k)
mac = lambda *a, **k: E("macros", *a, **k)
yw = lambda *a, **k: E("yew", *a, **k)
mgr = lambda *a, **k: E("mgr", *a, **k)
dom = lambda *a, **k: E("dom", *a, **k)
ssr = lambda *a, **k: E("ssr", *a, **k)
ctr = lambda *a, **k: E("ctr", *a, **k)
csr = lambda *a, **k: E("csr", *a, **k)
CLIENT = ["the browser is the model in harness/web-sys-model (document, media queries, events); yew 0.22 is the real one, its delegated DOM event listeners left out and its tasks run from a queue when the harness says so"]
CTX = "each of 11 syntactic contexts around the symbolic part"

PROPS = {
    "C01": dict(entries=[
        core("c01_bytes3", "all strings of 3 arbitrary bytes", ["accepted", "rejected"]),
        core("c01_alpha5", "all strings of 5 characters over 15 syntax characters", ["accepted", "rejected"]),
        core("c01_ctx2", "2 arbitrary bytes in " + CTX, ["accepted", "rejected"]),
        core("c01_ctx3", "3 syntax characters in " + CTX, ["accepted", "rejected"]),
        core("c01_spaces", "runs of 5 letters, spaces, tabs and newlines in " + CTX, ["accepted", "rejected"]),
        core("c01_shapes4", "all stylesheet shapes of up to 4 nodes, nesting 3", ["accepted"]),
        core("c01_shapes", "all shapes of up to 3 nodes, nesting 2, one leaf of arbitrary text or one optional form", ["accepted"]),
        core("c01_words", "stylesheets of 5 shapes in the words of real ones: any of 14 keys with any of 64 values at any of 4 places, 66 selectors in pairs, 26 conditions of 3 at-rules, names and frames", ["accepted"]),
        core("c01_many", "1 to 257 parts of 18 kinds or a text of up to 1025 characters, one with a symbolic character", ["accepted"]),
    ]),
    "C02": dict(entries=[
        core("c02_bytes3", "all strings of 3 arbitrary bytes, then a further parse", ["accepted", "rejected"]),
        core("c02_ctx2", "2 arbitrary bytes in " + CTX, ["accepted", "rejected"]),
        core("c02_wide", "rejected and accepted texts of 90 wide characters, 0 to 3 bytes before them, in each context", ["accepted", "rejected"]),
        core("c02_columns", "texts of one line of 65533 to 65540 characters, 2 arbitrary ones at its end, in 6 contexts", ["accepted", "rejected"]),
        core("c02_deep", "nesting of 62 to 66 and of 20000 blocks, at-rules, parentheses and strings, closed or not", ["accepted", "rejected"]),
    ]),
    "C03": dict(entries=[
        core("c03_bytes3", "all strings of 3 arbitrary bytes", ["accepted", "rejected"]),
        core("c03_ctx2", "2 arbitrary bytes in " + CTX, ["accepted", "rejected"]),
        core("c03_ctx3", "3 syntax characters in " + CTX, ["accepted", "rejected"]),
        core("c03_spaces", "runs of 5 letters, spaces, tabs and newlines in " + CTX, ["accepted", "rejected"]),
        core("c03_deep", "nesting of 60 to 66 at-rules", ["accepted", "rejected"]),
        core("c03_shapes", "all shapes of up to 3 nodes, nesting 2, one leaf of arbitrary text or one optional form", ["accepted"]),
        core("c03_words", "stylesheets of 5 shapes in the words of real ones: any of 14 keys with any of 64 values at any of 4 places, 66 selectors in pairs, 26 conditions of 3 at-rules, names and frames", ["accepted"]),
        core("c03_many", "1 to 257 parts of 18 kinds or a text of up to 1025 characters", ["accepted"]),
    ]),
    "C04": dict(entries=[
        core("c04_shapes", "all shapes of up to 3 nodes, nesting 2, arbitrary trivia at one token boundary", ["gap", "wgap"]),
        core("c04_words", "37 forms of comments and white space of real stylesheets at any token boundary, or at all, of 4 sheets", ["gap", "wgap"]),
        core("c04_many", "white space and comments of 3 to 1025 characters, 3 to 257 comments, at any token boundary, or at all, of 4 sheets", ["gap", "wgap"]),
    ]),
    "C05": dict(entries=[
        core("c05_text", "selector texts of up to 7 symbolic characters", ["ampersand"]),
        core("c05_class", "class names of 3 arbitrary name characters"),
        core("c05_split", "selector texts split into up to 3 fragments at any place"),
        core("c05_lists", "lists of up to 3 selectors"),
        core("c05_untouched", "`&` and `:root` in keys, values, conditions and names"),
        core("c05_words", "stylesheets of 5 shapes in the words of real ones: any of 14 keys with any of 64 values at any of 4 places, 66 selectors in pairs, 26 conditions of 3 at-rules, names and frames"),
        core("c05_many", "1 to 257 parts of 18 kinds or a text of up to 1025 characters, one with a symbolic character"),
    ]),
    "C06": dict(entries=[
        core("c06_text", "selector texts of up to 7 symbolic characters", ["ampersand"]),
        core("c06_lists", "lists of up to 3 selectors"),
        core("c06_untouched", "`&` and `:root` in keys, values, conditions and names"),
        core("c06_words", "stylesheets of 5 shapes in the words of real ones: any of 14 keys with any of 64 values at any of 4 places, 66 selectors in pairs, 26 conditions of 3 at-rules, names and frames"),
        core("c06_many", "1 to 257 parts of 18 kinds or a text of up to 1025 characters, one with a symbolic character"),
    ]),
    "C07": dict(entries=[
        core("c07_vary4", "all trees of up to 4 nodes, nesting 3, equal or different conditions", ["declarations", "empty keyframes"]),
        core("c07_deep5", "all trees of up to 5 nodes, nesting 4", ["declarations", "empty keyframes"]),
        core("c07_inner6", "all blocks with up to 6 interleaved declarations and nested at-rules"),
        core("c07_fragments", "keys, values and conditions of symbolic fragments"),
        core("c07_blocks4", "all trees of up to 4 nodes with blocks without selectors in at-rules and blocks"),
        core("c07_blocks5", "the same with up to 5 nodes"),
        core("c07_many", "1 to 257 parts of 18 kinds or a text of up to 1025 characters, one with a symbolic character, with or without a class"),
        core("c07_blocks6", "the same with up to 6 nodes, equal conditions", thorough=True),
    ]),
    "C12": dict(entries=[
        core("c12_two", "pairs of strings of 2 and 3 arbitrary bytes, second parsed alone and after the first", ["both accepted", "first rejected"]),
        core("c12_three", "three strings over the syntax characters, any order", ["one rejected"]),
        core("c12_space", "a string and the same with any one character of 1 to 3 bytes at 4 places, in either order", ["both accepted", "one rejected"]),
        core("c12_many", "1 to 1025 strings, accepted and rejected, then parsed again"),
        core("c12_long", "pairs of strings of up to 1030 characters that differ in one place"),
    ]),
    "C15": dict(entries=[
        core("c15_shapes", "all shapes of up to 2 nodes, nesting 2, one deviating leaf, JSON and bincode"),
        core("c15_many", "1 to 257 parts of 18 kinds or a text of up to 1025 characters, JSON and bincode"),
        mgr("c15_many_data", "style data of 1 to 257 styles"),
        core("c15_shapes3", "the same with up to 3 nodes", thorough=True),
        core("c15_repr", "all representations of a fixed tree"),
        core("c15_text", "leaf texts of arbitrary characters"),
        mgr("c15_data", "style data of up to 2 styles of any kind, prefix and of 6 shapes, JSON and bincode"),
    ]),
    "C23": dict(entries=[
        core("c23_same_shape", "pairs of stylesheets of one shape with symbolic texts", ["same", "different"]),
        core("c23_shapes", "pairs of stylesheets of any two small shapes", ["same", "different"]),
        core("c23_reprs", "borrowed, owned, boxed and cloned parts in every mix"),
        core("c23_fragments", "fragment lists that join to the same text", ["same", "different"]),
        core("c23_many", "1 to 257 parts of 18 kinds or a text of up to 1025 characters, and the same, one more or one with a symbolic character", ["same", "different"]),
    ]),
    "C08": dict(entries=[
        mgr("c08_pair", "two styles of any kind, prefix and of 6 shapes with a symbolic character; plain, writing or default manager", ["again", "fresh"]),
        mgr("c08_forms", "a style and a similar one, each obtained in any of 7 ways", ["again", "fresh"]),
        mgr("c08_four", "four creations of any kind and prefix", ["again", "fresh"]),
        mgr("c08_prefixes", "two creations with prefixes that run into the separators", ["again", "fresh"]),
        mgr("c08_anyprefix", "two creations with prefixes of any characters, in any case, empty or not ASCII", ["again", "fresh"]),
        mgr("c08_texts", "two styles whose names differ in up to 2 characters, in case or in Unicode form", ["again", "fresh"]),
        mgr("c08_failed", "a creation failing by rejection or by a corrupt value among others", ["failed", "panicked"]),
        mgr("c08_many", "1 to 257 styles of any kind, one with a symbolic character, each created again", ["again", "fresh"]),
    ]),
    "C09": dict(entries=[
        mgr("c09_format", "every outcome of the random source, prefixes of any characters, empty or not ASCII"),
        mgr("c09_distinct", "every outcome of the random source, two styles", ["equal suffixes"]),
        mgr("c09_source", "every outcome of the random source, repeated once"),
    ]),
    "C10": dict(entries=[
        mgr("c10_two", "all histories of 3 steps over two writing managers, equal or different prefixes", ["again", "fresh", "unregistered"]),
        mgr("c10_default", "all histories of 2 steps over the default and another manager and its clone", ["again", "fresh"]),
        mgr("c10_source", "one style source given to either of two managers, twice", ["again"]),
        mgr("c10_deep4", "all histories of 4 steps over two writing managers", ["stale"]),
        mgr("c10_many", "1 to 257 styles in two managers by turns, one unregistered", ["fresh", "unregistered"]),
    ]),
    "C11": dict(entries=[
        mgr("c11_history4", "all histories of 4 steps: create, unregister, drop, clone", ["stale", "unregistered"]),
        mgr("c11_history5", "two creations, then 3 arbitrary steps", ["stale", "unregistered"]),
        mgr("c11_manager_gone", "2 creations or unregistrations, then 2 steps that may drop the manager", ["stale"]),
        mgr("c11_deep5", "all histories of 5 steps"),
        mgr("c11_many", "1 to 257 styles, one, all but one or all after one unregistered or dropped", ["unregistered"]),
        mgr("c11_manager_gone3", "2 creations, then 3 steps that may drop the manager", thorough=True),
    ]),
    "C13": dict(entries=[
        mgr("c13_history", "2 creations of any kind, prefix, 2 shapes, with unregistering", ["again"]),
        mgr("c13_history3", "3 creations of any kind and prefix, with unregistering", ["again"]),
        mgr("c13_many", "1 to 257 styles, each created twice, some unregistered"),
        mgr("c13_long", "ends of the style element after up to 100 or around 128, 1024 and 4096 other characters", ["end in text"]),
        mgr("c13_history4", "4 creations of any kind and prefix, with unregistering", thorough=True),
        mgr("c13_end", "every spelling of an end of the style element, after any start of one", ["end in text"]),
        mgr("c13_chars", "strings of 6 to 8 characters over 16 markup characters", ["end in text", "harmless"]),
        mgr("c13_anywhere", "ends of the style element in selectors, keys, conditions and values", ["accepted"]),
    ]),
    "C14": dict(entries=[
        mgr("c14_shapes", "any one style of 6 shapes, three transports"),
        mgr("c14_three", "2 or 3 styles of any kind and prefix, three transports"),
        mgr("c14_again", "a style created again after being unregistered, three transports"),
        mgr("c14_partial", "data of two servers loaded one after the other"),
        mgr("c14_many", "1 to 257 styles of any kind, three transports"),
    ]),
    "C24": dict(entries=[
        yw("c24_sources", "two sources in 7 forms bound to any of three managers", ["same class"]),
        yw("c24_style", "a style with any prefix as classes"),
        yw("c24_unregistered", "a source converted before and after unregistering"),
    ]),
    "C16": dict(entries=[
        mac("c16_bytes2", "literals of 2 arbitrary bytes", ["accepted", "rejected"]),
        mac("c16_ctx1", "1 arbitrary byte in each of 12 syntactic contexts", ["accepted", "rejected"]),
        mac("c16_ctx2", "2 ASCII characters, or one of them with one of 7 wider characters, in each of 12 contexts", ["accepted", "rejected"]),
        mac("c16_ctx3", "3 syntax characters in each of 12 contexts", ["accepted", "rejected"]),
        mac("c16_string4", "4 characters of strings, `$`, braces and escapes inside strings", ["accepted", "rejected"]),
        mac("c16_shapes", "all shapes of 1 node with one leaf of arbitrary text, one gap or one optional form, as raw literals", ["accepted"]),
        mac("c16_structs", "all stylesheet shapes of up to 4 nodes, nesting 3", ["accepted"]),
        mac("c16_wrap", "each macro, 1 syntax character in each of 12 contexts", ["accepted", "rejected"]),
        mac("c16_shapes2", "all shapes of up to 2 nodes, one deviation", ["accepted"]),
        mac("c16_words", "stylesheets of 5 shapes in the words of real ones: any of 14 keys or 64 values at any of 4 places, 66 selectors, 26 conditions of 3 at-rules, names and frames", ["accepted"]),
        mac("c16_many", "1 to 257 parts of 18 kinds or a text of up to 1025 characters", ["accepted"]),
        mac("c16_ctx2u", "2 arbitrary bytes in each of 12 contexts", ["accepted"], thorough=True),
        mac("c16_bytes3", "literals of 3 arbitrary bytes", ["accepted"], thorough=True),
    ]),
    "C17": dict(entries=[
        mac("c17_sites", "12 places of a placeholder, arbitrary values"),
        mac("c17_around", "a placeholder between 2 arbitrary syntax characters at 12 places", ["accepted", "rejected"]),
        mac("c17_two", "three placeholders of two names at two of 12 places, spaces and order of arguments", ["accepted"]),
        mac("c17_args", "up to 2 placeholders and 3 arguments of any of three names", ["accepted", "rejected"]),
        mac("c17_argsyntax", "argument lists of up to 5 tokens", ["accepted", "rejected"]),
        mac("c17_many", "1 to 65 placeholders of as many names or of two; one argument missing or unused", ["accepted"]),
    ]),
    "C18": dict(entries=[
        mac("c18_bytes4", "all strings of 4 arbitrary bytes", ["malformed", "text", "placeholder"]),
        mac("c18_alpha7", "all strings of 7 characters over 7", ["malformed", "text", "placeholder"]),
        mac("c18_alpha9", "all strings of 9 characters over `$ { } a`", ["malformed", "text", "placeholder"]),
        mac("c18_within", "up to 3 pieces of text, placeholders and escapes", ["malformed", "text", "placeholder"]),
        mac("c18_macro", "5 characters over 7 in a string, through the macro", ["malformed", "text", "placeholder"]),
        mac("c18_many", "up to 257 pieces, and texts and names of up to 1025 characters", ["malformed", "text", "placeholder"]),
    ]),
    "C19": dict(entries=[
        mac("c19_ctx2", "2 syntax characters in 10 contexts", ["accepted", "rejected"]),
        mac("c19_pairs", "pairs of 28 tokens, with or without white space, in 6 contexts", ["accepted", "rejected"]),
        mac("c19_triples", "triples of 11 tokens, with or without white space, in a value and a condition", ["accepted"]),
        mac("c19_ctx3", "3 syntax characters in 10 contexts", ["accepted"]),
        mac("c19_triples28", "triples of 28 tokens in a value and a condition", ["accepted"], thorough=True),
        mac("c19_quads", "4 of 9 tokens in a value and a condition", ["accepted"], thorough=True),
    ]),
    "C20": dict(entries=[
        mac("c20_ctx2", "2 syntax characters in 10 contexts", ["static"]),
        mac("c20_pairs", "pairs of 13 tokens in 6 contexts", ["static", "dynamic"]),
        mac("c20_inline", "an inline style of 1 node, every form of name, number, string, placeholder", ["static", "dynamic"]),
        mac("c20_literal", "a literal of 1 node, the same forms", ["static", "dynamic"]),
        mac("c20_places", "all inline and literal shapes of up to 3 nodes with one run-time value", ["static", "dynamic"]),
        mac("c20_exprs", "every form of Rust expression at 7 places, inline and as an argument", ["dynamic", "constant"]),
        mac("c20_many", "inline styles of 1 to 65 parts of 11 kinds, none or one of them dynamic; the same as literals", ["static", "dynamic"]),
        mac("c20_triples", "triples of 11 tokens", ["static", "dynamic"], thorough=True),
        mac("c20_inline2", "inline styles of up to 2 nodes", ["static", "dynamic"], thorough=True),
        mac("c20_literal2", "literals of up to 2 nodes", ["static", "dynamic"], thorough=True),
    ]),
    "C21": dict(entries=[
        mac("c21_ctx2", "2 syntax characters in 10 contexts", ["accepted", "rejected"]),
        mac("c21_items5", "5 tokens of 8 kinds", ["accepted", "rejected"]),
        mac("c21_shapes3", "all shapes of up to 3 nodes, nesting 3", ["accepted"]),
        mac("c21_shapes1", "1 node, every form of name, number, string, placeholder", ["accepted"]),
        mac("c21_items6", "6 tokens of 8 kinds", ["accepted"]),
        mac("c21_ctx3", "3 syntax characters in 10 contexts", ["accepted"]),
        mac("c21_words", "inline styles of 4 shapes with any of 12 keys, 40 values, 28 selectors or 18 conditions of real ones", ["accepted", "rejected"]),
        mac("c21_many", "inline styles of 1 to 65 parts of 11 kinds, none or one of them dynamic", ["accepted"]),
        mac("c21_shapes4", "up to 4 nodes, one form", ["accepted"], thorough=True),
    ]),
    "C22": dict(entries=[
        mac("c22_shapes1", "1 node, every form of name, number, string, selector, condition, placeholder", ["agree"]),
        mac("c22_shapes5", "all shapes of up to 5 nodes, nesting 3", ["agree"]),
        mac("c22_literals", "32 forms of literals and all integers of 3 digits in place of a value at 6 places, inline and as an argument", ["agree"]),
        mac("c22_words", "inline styles of 4 shapes with any of 12 keys, 36 values, 28 selectors or 18 conditions of real ones", ["agree"]),
        mac("c22_many", "inline styles of 1 to 65 parts of 11 kinds, none or one of them dynamic", ["agree"]),
        mac("c22_shapes2", "up to 2 nodes, one form", ["agree"], thorough=True),
        mac("c22_two", "up to 2 nodes, two forms", ["agree"], thorough=True),
        mac("c22_shapes3", "up to 3 nodes, one form", ["agree"], thorough=True),
    ]),
    "C28": dict(entries=[
        mac("c28_one", "functions with one of: 6 attributes, 4 other visibilities, 4 qualifiers, 4 names, 5 generics, 6 parameter lists, 4 results; up to 2 of 10 statements; with or without a component name", ["function"]),
        mac("c28_two", "functions with two of these, up to 1 statement", ["function"]),
        mac("c28_body3", "bodies of up to 3 of 10 statements", ["function"]),
        mac("c28_items", "15 other items", ["rejected"]),
        mac("c28_args", "arguments of up to 3 of 8 tokens", ["accepted", "rejected"]),
        mac("c28_three", "functions with three of these", ["function"], thorough=True),
    ], assumptions=["syn's and proc-macro2's own parsing of Rust is taken as is (it is executed, not checked)"]),
    "C25": dict(entries=[
        dom("c25_history3", "all histories of 3 steps over the default manager and one with its own container, first or last"),
        dom("c25_container4", "all histories of 4 steps, 0 to 2 nodes in the container before", ["unregistered", "gone", "manager dropped"]),
        dom("c25_history4", "all histories of 4 steps over the default manager and one with its own container", ["unregistered", "gone", "manager dropped"]),
        dom("c25_shared4", "all histories of 4 steps over two managers of one container", ["gone"]),
        dom("c25_detached4", "all histories of 4 steps in a shadow root or a detached element", ["gone"]),
        dom("c25_hydrated", "2 styles of a server, loaded, used and one of them removed"),
        dom("c25_failing", "creations that cannot be mounted"),
        dom("c25_many", "1 to 129 styles, each created twice, one or all but one of them unregistered, then all dropped"),
        dom("c25_container5", "all histories of 5 steps", ["gone"], thorough=True),
        dom("c25_container6", "all histories of 6 steps", ["gone"], thorough=True),
    ], assumptions=["the document is the model in harness/web-sys-model (tree, attributes, text, insertion, removal, failures of the DOM standard)"]),
    "C26": dict(entries=[
        csr("c26_one4", "one component with either hook, all histories of 4 steps (media changes, query changes, mounting, unmounting) over 2 queries of any first state", ["media", "query", "unmount"]),
        csr("c26_lazy3", "the same with 3 steps, any of them before yew's tasks run", ["media", "query", "unmount"]),
        csr("c26_two3", "two components, 3 steps", ["media", "query", "unmount"]),
        csr("c26_hydrated1", "one component rendered on the server with either fallback and hydrated, 3 steps", ["media", "query", "first"]),
        csr("c26_hydrated2", "two such components, 2 steps", ["media", "query", "first"]),
        csr("c26_one5", "one component, 5 steps", ["media", "query", "unmount"], thorough=True),
        csr("c26_two4", "two components with use_media_query, 4 steps, any of them before yew's tasks run", ["media", "query", "unmount"], thorough=True),
    ], assumptions=CLIENT),
    "C27": dict(entries=[
        ssr("c27_pages4", "all trees of up to 4 components of 3 kinds, 3 managers, nesting 3", ["global", "state"]),
        ssr("c27_wide3", "all trees of up to 3 components of 6 kinds, 3 managers, nesting 3", ["global", "state"]),
        csr("c27_client22", "in the browser: any tree of up to 2 components of 3 kinds, updated to any other, then destroyed; 3 managers with containers of their own", ["global", "update"]),
        csr("c27_client21", "the same with 6 kinds, 2 and 1 components", ["global", "update"]),
        csr("c27_client1111", "three updates between trees of one component", ["global", "update"]),
        csr("c27_hydrated3", "all trees of up to 3 components of 3 kinds below a provider, rendered on the server, its static markup and styles taken over by hydration", ["hydrated"]),
        csr("c27_then2", "up to 2 components hydrated, then updated to any other 2 below any provider", ["hydrated", "update"]),
        csr("c27_client3", "up to 3 components, updated to up to 2", ["global", "update"], thorough=True),
        csr("c27_client222", "two updates between trees of up to 2 components", ["global", "update"], thorough=True),
        csr("c27_client2", "up to 2 components of 6 kinds, updated once", ["global", "update"], thorough=True),
        csr("c27_then3", "up to 2 components of 6 kinds hydrated, then updated", ["hydrated", "update"], thorough=True),
        ssr("c27_wide4", "the same with up to 4 components", ["global"], thorough=True),
        ssr("c27_pages5", "the first with up to 5 components", ["global"], thorough=True),
    ], assumptions=CLIENT),
    "C29": dict(entries=[
        ctr("c29_history3", "all histories of 3 creations of any kind and prefix, in any of three managers, unregistered or kept", ["again", "fresh"]),
        ctr("c29_many", "1 to 257 styles of all kinds in two managers by turns"),
        ctr("c29_hydrated", "1 or 2 styles of a server with any numbers of one digit, used or unregistered, then 2 fresh ones", ["hydrated"]),
        ctr("c29_hydrated2", "2 styles of a server with any numbers of one and two digits, then a fresh one", ["hydrated"], thorough=True),
        ctr("c29_numbers", "1 style of a server with a number of any length or another id", ["hydrated"]),
        ctr("c08_pair", "two styles of any kind, prefix and of 6 shapes with a symbolic character", ["again", "fresh"]),
        ctr("c08_four", "four creations of any kind and prefix", ["again", "fresh"]),
        ctr("c10_two", "all histories of 3 steps over two writing managers", ["again", "fresh", "unregistered"]),
        ctr("c11_history4", "all histories of 4 steps: create, unregister, drop, clone", ["stale", "unregistered"]),
        ctr("c14_three", "2 or 3 styles of any kind and prefix, three transports"),
        ctr("c14_partial", "data of two servers loaded one after the other"),
        ctr("c29_history4", "all histories of 4 creations", ["again", "fresh"], thorough=True),
        ctr("c29_hydrated3", "2 styles of a server, then 3 fresh ones", ["hydrated"], thorough=True),
    ]),
}
