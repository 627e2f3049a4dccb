------------------------------ MODULE P8Names ------------------------------
(* The names that mean something to PICO-8. *)
\* ---- the names PICO-8 defines (its manual), and the ones it looks for
Functions == {
  "abs", "add", "all", "assert", "atan2", "btn", "btnp", "camera", "cartdata", "ceil", "chr", "circ", "circfill", "clip", "cls",
  "cocreate", "color", "coresume", "cos", "costatus", "count", "cstore", "cursor", "del", "deli", "dget", "dset", "extcmd", "fget",
  "fillp", "flip", "flr", "foreach", "fset", "getmetatable", "inext", "ipairs", "line", "load", "map", "max", "memcpy", "memset",
  "menuitem", "mget", "mid", "min", "mset", "music", "next", "ord", "oval", "ovalfill", "pack", "pairs", "pal", "palt", "peek",
  "peek2", "peek4", "pget", "poke", "poke2", "poke4", "print", "printh", "pset", "rawequal", "rawget", "rawlen", "rawset", "rect",
  "rectfill", "reload", "reset", "rnd", "rrect", "rrectfill", "run", "select", "serial", "setmetatable", "sfx", "sget", "sgn", "sin",
  "split", "spr", "sqrt", "srand", "sset", "sspr", "stat", "stop", "sub", "t", "time", "tline", "tonum", "tostr", "trace", "type",
  "unpack", "yield", "band", "bnot", "bor", "bxor", "lshr", "rotl", "rotr", "shl", "shr", "mapdraw"}
Glyphs == {"~80", "~81", "~82", "~83", "~84", "~85", "~86", "~87", "~88", "~89", "~8a", "~8b", "~8c", "~8d", "~8e", "~8f",
           "~90", "~91", "~92", "~93", "~94", "~95", "~96", "~97", "~98", "~99"}   \* fill patterns and buttons
Callbacks == {"_init", "_update", "_update60", "_draw"}
Members == {"n", "__index", "__newindex", "__len", "__eq", "__lt", "__le", "__add", "__sub", "__mul", "__div", "__idiv", "__mod",
  "__pow", "__and", "__or", "__xor", "__shl", "__shr", "__lshr", "__rotl", "__rotr", "__concat", "__unm", "__not", "__peek",
  "__peek2", "__peek4", "__call", "__tostring", "__pairs", "__ipairs", "__metatable", "__gc", "__mode"}
Fixed == Functions \cup Glyphs \cup Callbacks \cup {"_ENV"}
Copied == {"time", "sub", "chr", "ord", "tostr", "tonum", "add", "del", "deli", "clip", "color", "pal", "palt", "fillp", "pget", "pset", "sget",
  "sset", "fget", "fset", "circ", "circfill", "rect", "rectfill", "oval", "ovalfill", "line", "spr", "sspr", "mget", "mset", "tline", "peek",
  "poke", "peek2", "poke2", "peek4", "poke4", "memcpy", "memset", "max", "min", "mid", "flr", "ceil", "cos", "sin", "atan2", "srand", "band",
  "bor", "bxor", "bnot", "shl", "shr", "lshr", "rotl", "rotr"}   \* (PICO-8 copies these to locals: they are not looked up in an _ENV)
=============================================================================
