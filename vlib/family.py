"""The pinned family of grammars behind C01-C06 and C17. One grammar per line; the first rule is the start rule.
fN are semantic actions defined by the harness, x::p/q/z external rules, Ev/Ts constructors, `@fm` runs over a FileMapStream."""
BASIC = r'''
r = "a"
r = "ab" "c"
r = .
r = ["a-c"]
r = ["a-cx-z0"]
r = ["-a"]
r = ["a-"]
r = ["é-ü"] .
r = ["\u{100}-\u{10ffff}"]
r = ["\\\"]"]
r = ["\n\r\t"] .
r = "é" "à"
r = "aé" ["à"]
r = "" "a"
r = ("a" / "") "b"
r = "a"*
r = "a"* "b"
r = "a"+
r = "a"+ "ab"
r = "ab"* "a"
r = "ab"* "ac"
r = "a"? "b"
r = "a"? "ab"
r = ("ab"? "a")+ "c"
r = ("a"? "b")* "a"
r = !"a" .
r = &"a" .
r = !"a" ["a-c"]
r = &"ab" "a" .
r = (!"b" .)* "b"
r = !(!"a") .
r = &(!"a" .) ["b"]
r = !("a" "b") "a"
r = &("a" / "b") . "c"
r = "a" / "b"
r = "a" / "ab"
r = ("a" / "ab") "c"
r = ("ab" / "a") "c"
r = ("a" / "b" / "c") "d"
r = ("a" / "b" / "c" / "d")+
r = ("ab" / "ac" / "a")
r = ("a" "b" / "a" "c") "d"
r = ("a" "b" / "a" "c" / "a") "d"
r = (("a" / "b") "c" / "d") "e"
r = (("a" / "b") "c") / "b" "d"
r = (("a" / "b") ("c" / "d") / "a" "e") "f"
r = ((("a" / "b") "c" / "d") "e" / "a" "c" "f") "g"
r = ("a" / "b")* "c"
r = (("a" / "b") "c")* "a"
r = (("a" / "b") ("c" / "d"))* "a"
r = (("a" / "b")? "c")* "a"
r = ("a" ("b" / "c")* "d" / "a") "e"
r = ("a" / "b")? ("c" / "a") "d"
r = (("a" / "b")+ / "c") "d"
r = !(("a" / "b") "c") ("a" / "b")
r = &(("a" / "b")* "c") ("a" / "b")+
r = (&("a" "b" / "c") .)* "d"
r = !("a"* "b") .+
r = ("a" / "b") ("a" / "c") ("b" / "c")
r = (("a" / "b") / ("c" / "d")) "a"
r = ("a" / ("b" / "c") "a" / "b") "d"
r = (("a")*  "b")+ "a"
r = (("a"+ "b"?)+ "c")? "a"
r = "a" "b"? "c"* "d"+
r = ("aa" / "a")* "b"
r = ("a" / "aa")+ "b"
r = "a"+ "a"
r = ("a" !"b")* "a" "b"
r = ("a" &"b" "b" / "a" "c")+
r = ("a"? "b"? "c")+ "d"
r = ("ab" / "a" "c"? )* "d"
r = s "b" s = "a" / "b"
r = s* "c" s = "a" "b" / "b"
r = (s / "a") "c" s = "a" "b"
r = s "c" / t "d" s = "a" / "b" t = "b" / "a"
r = "(" r ")" / "x"
r = "(" s* ")" s: () = "(" s* ")" / "x"
r = "a" r "a" / "a"
r = "a" s / "b" s = "c" r / "d"
r = ("a" r / "b") "c"
r = !s (.:()) r / "a" s = "a"
r = s s = t "a"? t = "b" / "c" t
r = "é"* ["é-ê"]
r = ("é" / "è" / "e") "a"
r = .+ 
r = . . .
r = (. .)* "a"
r = (. "a" / "b" .) .
r = ["a-c"]+ ["b-d"]
r = (["a-c"] / ["b-d"] "a") "b"
r = (["a"] ["b"] / ["a"] ["c"])* ["a"]
'''
TYPED = r'''
r = . "a" .
r = ["a-c"] ["b-d"]
r = .*
r = .* "a"?
r = "x" ["a-b"]* "y"
r = ["a-b"]+ ["c"]
r = ["a"]? .
r = (["a"] ["b"])* .
r = (["a"] ["b"]?)+ .
r = (. .)? 
r = (. "a" .)* 
r = ((. "a")* "b")*
r = (["a"]+ "b")* ["a"]*
r = (["a"]? "b")+
r = (. / "a" .)
r = ["a"] / ["b"]
r = ("a" ["b"] / "c" ["d"]) "e"
r = (["a"] "b" / ["a"] "c" / ["a"])
r = ["a"] (["b"] / ["c"]) ["d"]
r = ["a"] ("x" ["b"] / "y" ["c"] / ["d"]) ["e"] .
r = (["a"] ["b"] / ["a"] ["c"]) ["d"]
r = (["a"] ["b"] / ["c"] ["d"]) (["a"] / ["b"])
r = (["a"] (["b"] / ["c"]) / ["d"] ["e"])
r = ((["a"] / ["b"]) ["c"] / ["a"] ["d"]) ["e"]
r = (((["a"] / ["b"]) ["c"] / ["a"] ["d"]) ["e"] / . . ["f"]) .
r = (["a"] / ["b"])* ["a"]
r = ((["a"] / ["b"]) ["c"])* ["a"]
r = ((["a"] / ["b"]) ["c"])? ["a"]
r = ((["a"] / ["b"]) (["c"] / ["d"]))+
r = ((["a"] / ["b"])? ["c"])*
r = (["a"]* "x" / ["b"]* "y" ) .
r = ["a"]* ("x" / "y") ["b"]*
r = ["a"]* (["b"] / ["c"]) ["d"]?
r = ["a"]? ["b"]* (["c"]+ / ["d"]+) (["a"] / ["b"])
r = (["a"]* ("b" / "c"))* .
r = !"b" ["a-c"]
r = (!"b" .)* "b" .
r = &(. "b") . .
r = (&["a"] . / !["b"] . "c")*
r = ("a" / "b")* .
r = "a"* ["b"]*
r = "a"? .
r = s s . s = ["a"] ["b"]
r = s . s = ["a"] ("b" / "c") ["d"]
r = s* . s = . "a"
r = (s / t) . s = ["a"] ["b"] t = ["a"] "c" ["d"]
r = s t s = ["a"] t = ["b"] ["c"]
r = t s t s = ["a"] t = ["b"]
r = (s)? . s = ["a"] "b" ["c"]
r = s t u s = "a" . t = "b" u = . . 
r = s . s = "a" / "b"
r = (.:()) .
r = (. .):() .
r = (.*:(^)) .
r = . (.:(^)) . 
r = ((.:()))* .
r = (("a":()))* .
r = (("a":()))? .
r = (s / "a") . s: () = "b"
r = s* s: () = "a" .
r = s* . s: (^) = "a" .
r = s . s: () = (["a"] ["b"])*
r = ["a"] ["b"] ["c"] ["d"] ["e"] ["f"]
r = (["a"] ["b"]) (["c"] (["d"] ["e"])) ["f"]
r = ((["a"] "x")? ["b"])+ ["c"]?
r = (["a"]? ["b"]? ["c"])*
r = ["é-ü"]* .
r = ("é" . / . "é")
r = ["a"] (["b"] ["c"])* ["d"]
r = (["a"] (["b"] ["c"]*)*)?
r = ((((. "a")? "b")* "c")+ "d")?
r = s s s = t . t = u . u = .
r = (s "a" / s "b") s = . .
'''
ACTIONS = r'''
r = . > f1
r = . . > f2
r = "a" > f1
r = .* > f1
r = ["a"]? . > f1
r = ["a"] > f1 / ["b"] > f2
r = "a" > f1 / "b" > f2 / "c" > f3
r = "a" . > f1 / "a" > f2
r = (["a"] > f1 / ["b"] > f2) .
r = (. > f1) (. > f2) (. > f3)
r = (. > f1) (. "a" > f2) > f3
r = (. > f1)* > f2
r = (. > f1)* ["b"]
r = ((. > f1) "a" / (. > f2) "b")
r = ((. > f1) "a" / (. > f1) "b") > f2
r = . > box f1
r = (. > box f1) .
r = (. > box f1) ("a" / "b")
r = ["a"]* (. > box f1) ("a" / "b") ["c"]*
r = (["a"] ["b"] > f1 / ["a"] ["c"] > f2)*
r = ((["a"] / ["b"]) . > f1)
r = . ((["a"] / ["b"]) . > f1)
r = ((["a"] / ["b"]) . > f1 / "d" . > f2)
r = . (((["a"] / ["b"]) . > f1) / "d" . > f2)
r = (("a" / "b") (((["a"] / ["b"]) . > f1) / "d" . > f2))*
r = ["a"]* ((. ["b"]* (((("x" / "y") .+ ("x" / "y")) > f1) > f2) > f3) / . "x" .* > f4) .
r = &(. > f1) . > f2
r = !(["a"] > f1) . > f2
r = ((. > f1):()) (. > f2)
r = ((. > f1):(^)) .
r = (. > f1)? . > f2
r = s s . > f1 s = ["a"] > f2 / ["b"] > f3
r = s* > f1 s = t "a" > f2 t = . > f3
r = "(" r ")" > f1 / ["a"] > f2
r = "(" r r ")" > f1 / ["a"] > f2
r = s (("+" s) > f3)* > f1 s = ["0-9"] > f2
r = (s:()) s s = . > f1
r = s . s: () = (. > f1)
r = (["a"] ["b"]) ["c"] > f1
r = (["a"] "x" ["b"]?) ["c"]* > f1
r = s . > f1 s = . "x" .
r: Ev = "a" > Ev::Zero
r: Ev = "a" > Ev::Zero / . > Ev::One
r: Ev = ["a"] ["b"] > Ev::Two / ["a"]+ ["c"] > Ev::Many / . > Ev::One
r: Ts = . ["a"]? > Ts
r = s* . s: Ev = "a" > Ev::Zero / ["b"] ["c"] > Ev::Two
r: Ev = (("a" / "b") > Ev::Zero) / . > Ev::One
r = ("a" . > f1 / . > f2)+ > f3
r = (("a" > f1) ("b" > f2) / ("a" > f3) ("c" > f4))
r = ((["a"] > f1) (["b"] > f2) / (["a"] > f1) (["c"] > f2)) > f3
r = ["a"] ["b"] ["c"] ["d"] ["e"] > f1
r = ((((. > f1) > f2) > f3) > f4)
r = (. > f1) ((. > f2) / (["a"] ["b"] > f3))
r = ((.. . > f1) / (.. ("a" .) > f2))
r = (. > f1):(^) (. > f2):() . > f3
r = (..("a" . > f1)) > f2
r = (.. (("a" / "b") > f1)) .
r = (s / t):() . > f1 s = . > f2 t = . > f3
r = &s t s = . > f1 t = s "a" > f2
r = (s "a" / s "b") s = . > f1
'''
SPANS = r'''
r = .. "a"
r = .. .
r = .. "a"*
r = .. .*
r = .. ["a"]? .
r = .. (. .) 
r = .. . "a" .
r = "x" (.. "a"*) "y"
r = (.. ("a" / "ab")) "c"
r = (.. "ab" / .. "a") .
r = (.. "a")*
r = (.. ["a"])* .
r = (.. ("a" / "bc"))* "b"
r = (.. ("a" "b" / "a"))+ "c"
r = . (.. .) .
r = (.. .) (.. .)
r = .. (.. "a") "b"
r = .. (. (.. .)) .
r = .. (("a" / "b") .)
r = .. ("a" . / "b" .) ("c" / "d")
r = (.. (("a" / "b") .) / .. ("c" .))
r = .. &"a" .
r = .. !"a" .
r = .. (&"a")
r = .. "é" .
r = (.. ["é-ü"])* .
r = .. "a" > f1
r = .. . > f1 / .. ("a" ["b"]) > f1
r = (.. "a" > f1)* (.. .+ > f2)
r = ... "a"
r = ... .*
r = "x" (... ["a-b"]*) "y"
r = (... ("a" / "ab")) "c"
r = (... ("a" "b" / "a" "c"))* "a"
r = (... .) (... "a"?) (.. "b"*)
r = ... (. > f1) ("b" / "c")
r = .. (. > f1) ("b" / "c") "d"
r = ... ((.. .) "a") .
r = .. ((... .) "a")
r = s . s = .. "a"*
r = .. s s s = .. .
r = s* s = .. ("a" / "b" (.:()))
r = ((.. "a") ["b"] / (.. "a") ["c"])
r = (.. ("a" / "b")) (.. ("c" / "d"))
r = .. "a"? (.. "b"?) (.. "c"?)
r = ((.. .) "x")? .
r = (.. (.. "a" "b") "c") "d"
r = (.. "a"):() .
r = (.. (("a" / "b") "c"))* "a"
r = (("a" / "b") . (... ("a" / "b") "c"))*
r = ["a"]* (.. (["a"] ("x" / "y") .*)) ("x" "y" / "y")
@fm r = .. "a"
@fm r = (.. .)* 
@fm r = . (.. ("a" / "bé")* ) .
@fm r = (.. ("a" "b" / "a" (.:()) )) (.. .*)
'''
EXTERNAL = r'''
r: Xv = x::p
r = x::p:()
r = "a" (x::p:Xv)
r = (x::p:Xv) (x::q:Xv)
r = (x::p:Xv) . (x::q:Xv)
r: Xv = x::p / x::q
r = (x::p:Xv / x::q:Xv) (x::p:Xv)
r = (x::p:Xv "a" / x::q:Xv "b") .
r = (x::p:Xv)*
r = (x::p:Xv)* (x::q:Xv)
r = (x::p:Xv)+
r = (x::p:Xv)+ "a"
r = (x::p:Xv)?
r = (x::p:Xv)? (x::q:Xv)
r = !x::p .
r = &x::p (x::q:Xv)
r = !x::p (x::q:Xv)
r = &(x::p "a") .
r = (x::p:()) (x::q:Xv)
r = (x::p:(^)) (x::q:Xv)
r = (!x::p .)* (x::q:Xv)
r = ((x::p:Xv) (x::q:Xv))*
@a3 r = ((x::p:Xv) (x::q:Xv)?)*
r = ((x::p:Xv / x::q:Xv) .)*
r = ((x::p:Xv / x::q:Xv) .)?
r = ((x::p:Xv / x::q:Xv) "a" / x::p:Xv) "b"
r = (((x::p:() / x::q:()) "a") / x::p:()) "b"
r = ((x::p:Xv)+ / "a" (x::q:Xv)*) "b"
r = (x::p:Xv) > f1
r = (x::p:Xv) (x::q:Xv) > f1 / (x::p:Xv) > f2
r = ((x::p:Xv) > f1)* (x::q:Xv)
r = .. (x::p:Xv)
r = .. (x::p:() x::q:())
r = ... x::p
r = (.. (x::p:Xv))* .
r = (.. (x::p:Xv / x::q:Xv)) (.. (x::z:Xv))
r = (x::z:Xv)
r = (x::z:Xv) (x::p:Xv)
r = (x::z:Xv)? (x::p:Xv)
r = (x::p:Xv / x::z:Xv) "a"
r = &x::z .
r = !x::z .
r = (x::z:Xv) (x::z:Xv)
r = s (x::q:Xv) s: Xv = x::p
r = s* (x::q:Xv) s: Xv = "a" x::p
r = (s / t) "a" s: Xv = x::p t: Xv = x::q
r = s t / t s s: Xv = x::p t: Xv = x::q
r = (x::p "a"):() (x::q "b"):Xv
r = (x::p / x::q):() .
r = x::p:() / x::q:()
@a3 r = (x::p:() / x::q:())* "a"
r = ((x::p:(^))* (x::q:()) / "a" (x::p:())) "b"
r = ((x::p:Xv)? "a")+
r = (x::p:Xv) !x::q (x::p:Xv)
r = (x::p:Xv)* ("a" / "b") (x::q:Xv)
r = (x::p:Xv "a" / x::p:Xv "b" / x::q:Xv)
r = ((x::p:Xv) / (x::q:Xv) (x::z:())) "a"
r = (x::p:Xv) ((x::q:Xv) "a" / (x::q:Xv) "b") (x::z:Xv)
@a3 r = ((x::p:Xv) ((x::q:Xv) / "a" (x::p:Xv)))* "b"
r = !(x::p x::q) (x::p:Xv)
r = &(x::p / x::q) .
r = !(!x::p) (x::q:Xv)
@a3 r = ((x::p:Xv)* "a")* "b"
r = (.. ((x::p:Xv)? "a"))?
r = ... (x::p "a" / x::q)
r = (x::p:Xv) . > f1 / (x::q:Xv) "b" > f2
r = s "a" / t s: Xv = x::p / x::q t: Xv = (x::p "b" / x::z)
r = s? s s: Xv = x::p
r = (x::p:Xv)? "a" / (x::p:Xv)? "b"
r = ((x::p:Xv) > f1)? ((x::q:Xv) > f1 / (x::z:Xv) > f2)
r = (x::p:Xv)+ ((x::p:()) "b")?
r = s s = "a" s / x::p:()
r = (x::p:()) (.. (x::q:Xv)) / "a" (.. (x::p:Xv))
r = &((x::p:Xv) > f1) (x::q:Xv)
'''
# Many components, scopes, marks, branches, rules. `@wN`: also every text of N or N-1 bytes over the grammar's characters;
# `@aN` in the place of the usual 6.
WIDE = r"""
r = s . s = . . .
r = s . s = . . . .
r = . s s = ["a"] ["b"] ["c"] ["d"]
r = s s s = . "x" . ["a"]
r = s "x" . s = . . . . .
r = (s / t) . s = "a" . . . t = "b" . . "x" .
r = s* "z" s = ["a-b"] . .
r = (s .)? . s = ["a"] . .
r = . s . s = t u t = . . u = ["a"] . .
r = s > f1 s = . . . .
r = . s > f1 s = . . .
r = (s s)* > f1 s = . . .
r = s t > f1 s = (. > f2) (. > f3) (. > f2) t = . (. > f4) .
r = s . > f1 / t > f2 s = "a" . . . t = . . .
r = .. s . s = . . .
r = s . s = .. . . .
r = s s = ["a"] ["b"]* ["c"]? (. > f1) 
r = s . s = (.. .) (.. .) (. . .)? .
r = (.. s)* s = ["a"] ["b"] ["c"] ["d"]
r = ((["a"] ["b"]) (["c"] ["d"])) ((["e"] ["f"]) (["g"] ["h"]))
@w27 r = . (. > f1) (. > f2) (. > f3) (. > f1) (. > f2) (. > f3) (. > f1) (. > f2) (. > f3) (. > f1) (. > f2) (. > f3) (. > f1) (. > f2) (. > f3) (. > f1) (. > f2) (. > f3) (. > f1) (. > f2) (. > f3) (. > f1) (. > f2) (. > f3) (. > f1) (. > f2) > f4
@w27 r = . (. > f1) (. > f1) (. > f1) (. > f1) (. > f1) (. > f1) (. > f1) (. > f1) (. > f1) (. > f1) (. > f1) (. > f1) (. > f1) (. > f1) (. > f1) (. > f1) (. > f1) (. > f1) (. > f1) (. > f1) (. > f1) (. > f1) (. > f1) (. > f1) (. > f1) (. > f1)
@w27 r = (. > f1) (. > f1) (. > f1) (. > f1) (. > f1) (. > f1) (. > f1) (. > f1) (. > f1) (. > f1) (. > f1) (. > f1) (. > f1) (. > f1) (. > f1) (. > f1) (. > f1) (. > f1) (. > f1) (. > f1) (. > f1) (. > f1) (. > f1) (. > f1) (. > f1) (. > f1) (. > f1)
@w29 r = . (. > f1) (. > f2) (. > f1) (. > f2) (. > f1) (. > f2) (. > f1) (. > f2) (. > f1) (. > f2) (. > f1) (. > f2) (. > f1) (. > f2) (. > f1) (. > f2) (. > f1) (. > f2) (. > f1) (. > f2) (. > f1) (. > f2) (. > f1) (. > f2) (. > f1) (. > f2) (. > f1) (. > f2)
@w28 r = ["a"]* (. > f1) . (. > f2) . (. > f2) . (. > f2) . (. > f2) . (. > f2) . (. > f2) . (. > f2) . (. > f2) . (. > f2) . (. > f2) . (. > f2) . (. > f2) ["b"]?
@w30 r = (. > f1) (. > f1) (. > f1) (. > f1) (. > f1) (. > f1) (. > f1) (. > f1) (. > f1) (. > f1) (. > f1) (. > f1) (. > f1) (. > f1) (. > f1) (. > f1) (. > f1) (. > f1) (. > f1) (. > f1) (. > f1) (. > f1) (. > f1) (. > f1) (. > f1) (. > f1) (. > f1) (. > f1) > f2
@a2 r = ["a"]? ["b"]? ["c"]? ["d"]? ["e"]? ["f"]? ["g"]? ["h"]? ["i"]? ["j"]? ["k"]? ["l"]? ["m"]? ["n"]? ["o"]? ["p"]? ["q"]? ["r"]? ["s"]? ["t"]? ["u"]? ["v"]? ["w"]? ["x"]? ["y"]? ["z"]? . > f1
@w27 r = (. . . . . . . . . . . . . . . . . . . . . . . . . . .) > f1
@w12 r = .. "x" ["a"] ["b"] ["c"] ["d"] ["e"] ["f"] ["g"] ["h"] ["i"] ["j"] ["k"]
@w12 r = .. ("x" ["a-z"] !"z" ["a-z"] &["a-z"] . . !"z" . . . . . . .)
@w12 r = ... (["a"] "b"? ["c"] "d"? ["e"] "f"? ["g"] "h"? ["i"] "j"? ["k"] .)
@w12 r = "a"? "b"? "c"? "d"? "e"? "f"? "g"? "h"? "i"? "j"? "k"? "l"? "m"
@w12 r = ["a"]? ["b"]? ["c"]* ["d"]? ["e"]+ > f1
@w12 r = ("a" / "b") ("c" / "d") ("e" / "f") ("g" / "h") ("i" / "j") ("k" / "l") ("a" / "b") ("c" / "d") ("e" / "f") ("g" / "h") ("i" / "j") ("k" / "l")
@w12 r = . ("a" / "b") . ("c" / "d") . ("e" / "f") . ("g" / "h") . ("i" / "j") . ("k" / "l") > f1
r = "a" / "b" / "c" / "d" / "e" / "f" / "g" / "h" / "i" / "j" / "k" / "l"
r = ["a"] "x" / ["b"] "x" / ["c"] "x" / ["d"] "x" / ["e"] "x" / ["f"] "x" / ["g"] "x" / ["h"] "x" / ["i"] "x" / ["j"] "x" / ["k"] "x" / ["l"] "x"
r = ("a" > f1 / "b" > f2 / "c" > f3 / "d" > f4 / "e" > f5 / "f" > f6 / "g" > f7 / "h" > f8 / "i" > f9 / "j" > f10 / "k" > f11) .
r = ((((((("a" / "b") "a" / "c") "a" / "d") "a" / "e") "a" / "f") "a" / "g") "a" / "h") "a"
r = ((((((("b"* "a" / "b")? "a" / "c")* "a" / "d")? "a" / "e")* "a" / "f")? "a" / "g")* "a" / "h") "a"
r = (((((("a" "b")* "c")* "d")* "e")* "f")* "g")* "h"
r = ((((((["a"] "b")* "c")* "d")* "e")* "f")* "g")* "h"
r = !(!(!(!(!("a" "b") .) .) .) .) . .
r = s t u v w x2 s = "a" t = ["b"] u = "c" . v = . w = ["a"]? x2 = "b"*
r = s s = t t = u u = v v = w w = y y = z z = "a" . / "b" w
@w10 r = "let" " " ["a-c"]+ "=" ["0-1"]+ (" in " .+)?
@w8 r = "abcdefgh" / "abcdefg" / "abcdef" / "abcde" / "abcd" / "abc" / "ab" / "a"
@w8 r = ("abcdefg" / "abcd" "efgh" / "ab" "cdef" "h" / "a") .*
r = s / t / u s = "a" . t = "b" . u = "c" .
r = . > Ev::One / s s: Ev = "b" > Ev::Zero
r: Ev = "a" > Ev::zero / . "x" > Ev::one / . . > Ev::two
r: Ts = . ["a"]? > Ts::new
r: Box<Ts> = . ["a"]? > box Ts::new
r: Box<Ts> = . ["a"]? > box Ts
r = s . s: Box<Ts> = . ["a"]? > box Ts::new
r: Box<Tw> = . > box Tw::new
r: Tw = "a" . > Tw::new / . > Tw
r = s / "a" s s: Box<Tw> = "b" . > box Tw
r = s* s: Box<Tu> = "a" > box Tu::new
r: Tu = "a" > Tu::new / "b" > Tu::new
r: Box<Tn<Vec<char>>> = ["a-b"]* > box g::h::new
r: Tn<Option<char>> = ["a-b"]? "c" > g::h::new
r = s "z" s: Box<Tn<Box<Tn<char>>>> = t > box g::h::new t: Box<Tn<char>> = . > box g::h::new
r: Box<Ev> = "a" > box Ev::Zero / . > box Ev::one
r = ("a" > box f1) / ("b" > box f2)
r = s . s: Box<A> = .. . > box Ev::sp
r: A = "a" . > g::h::deep / . > g::h::deep
r = s* "z" s: Box<A> = ["a"]+ "b" > box g::h::deep
r = "a" > f1 / "b" (.:()) > f2 / (.:(^)) > f3
r = !("a" > f1) (. > f2)
r = &("a" > f1) (. > f2)
r = ("a" > f1)* ("b" > f2)+ ("c" > f3)?
r = (("a" > f1):()) . (("b" > f2):(^))
r = s (s:()) (s:(^)) &s !(s s) s = "a" > f1
r = ... ("a" > f1) (.. ("b" > f2) .)
"""
# Shaped after the grammars of tests/ and the guide.
REAL = r"""
@a6 r = sp e e: A = t > f1 t = n (op n)* > f2 n: A = d+ sp > f3 / lp e rp d = ["0-9"] op = "+" sp > f4 / "-" sp > f5 lp = "(" sp rp = ")" sp sp = [" "]*:(^)
@a6 r = sp v sp v: A = n > f1 / st > f2 / a > f3 / o > f4 a = lb (v co)* v sp rb o = lc m? sp rc m: A = pr (co pr)* > f5 pr: A = st cl v > f6 st = dq ch* dq sp > f7 dq = "\"" ch = ["a-b,"] n = ["0-1"]+ sp > f8 lb = "[" sp rb = "]" sp lc = "{" sp rc = "}" sp co = "," sp cl = ":" sp sp = [" "]*:(^)
@a6 r = !d !k ic+ sp > f1 ic = ["a-zA-Z0-9_"] d = ["0-9"] sp = [" "]*:(^) kt = !ic sp k = "i" kt / "le" kt
@a7 r = s* s = "if " c " t" c / "l " ["a-b"] . c = ["x"] / "-" ["y"]
@a6 r = ln ("\n" ln)* ln = f ("," f)* f = "\"" (!"\"" .)* "\"" / (!["\",\n"] .)*
@a7 r = "/*" (r > f2 / !"*/" . > f3)* "*/" > f1
@a6 r = (("a" / "b"+) .)* "c"*
@a6 r = &"a" (!"b" .)+ / &"b" (!"a" .)+
@a6 r = "a"? "b" ("c" . / "d" .)? "z"
@a6 r = ["a-zA-Z12_"]+ ["\t "]? ["-"]
@a6 r = "a" s+ . s = ("b" . / "c" .) (!"d" .)+
@a6 r = e !. e: A = (f ex)* f > f1 ex = "^" > f2 f: A = ["0-9"]+ > f3 / "(" e ")"
@a6 r = .. (k (.. (i ws)) ws) k = "u" ws i = ["a-b"]+ ws = " "*
@a7 r = "a" r "b" / "a" "b"
@a6 r = &(a "c") "a"+ b a = "a" a "b" / "a" "b" b = "b" b "c" / "b" "c"
@a7 r = es !. es = ("\\" . / ["a-b"])* "\\"?
@a6 r = "#" (["a-b"]+ > f1)? (" " ("x" "=" ["0-1"]* > f2))* (">" / "/>") > f3
"""
# Proposed by tools/randfam.py and kept when accepted.
RANDOM = r'''
r = ("ab" "ab" "c") (["a-b"]) ("b" "a" / "a" / "b") / ("a" ["b-c"])
r = (("b" "b" / "a" "b") "b") ("b" "a" / "c" "c" "ab")*
r = ("a" !"b" "b") ((. / ["b-c"] "a" "a" / ["a-b"] "b") / ("a" ["a-b"]))
r = ("ab" ["b-c"] / ["b"] / ["a-b"] "b") / (["a-b"] "b") ("c" / s) s = ("a" ("b" "a" "b" / "ab" / "c" "a" / "a") / "c" "b"+ (["ac"]:(^)))
r = (["b"] > f1) (. > f2) ((["a-b"] > f3) > f4 / ["a"] > f5)
r = ["b-c"] ("b" "b" "b")
r = &"a" ["b-c"] "c" / (. / ["b"] "a" / ["a-b"])
r = (.. ((... ["ac"]))*)
r = (["ac"] (. > f1) > f2 / ["a-b"] (. > f3) (. > f4) > f5) (. > f6)
r = ("a" ((.):()) ((["a-b"] "a") (["b-c"] / "a" .) > f1 / (["a"] > f2 / ["b"] (["a"] > f3) ["ac"] > f4 / "b" > f5) > f6 / ("b" ["b"]) > f7))
r = !("c" "a") ((["b"] > f1 / ["b"] (["a-b"] > f2) > f3 / s (["b"] > f4) > f5):()) s = ((["a-b"]) "a"+ / ["a-b"])
r = (("b" "c" "ab") (["b"] / ["b-c"] / "c" "a" .)) ("b" "c") ((["b-c"]:(^)) ("ab" "ab") / "c" "c") / "a" ["a-b"]
r = (. "ab" / .) ("b" "ab") / ("b" / "b" "a" "b" / "ab" "b" "b" / "b" "b" "a") (["b-c"] "a" / "ab" . / "ab" "c" ["b"])
r = (.. (("a" "ab" / "b" "ab" "ab" / "b" "c")? ("c" !"c" / ("a" "ab" "ab") ("b" / "b" / "a" "ab" "b" / "b"))))
r = (.. s) s = ((... .) (["ac"] "b") (["a-b"])? > f1 / (["ac"])+ > f2)
r = (["a"] "c" .) (["b-c"])
r = (["b"] ["a-b"] > f1 / "a" > f2) ("b" "a" / "a" / "a")
r = . / (("b" ["b-c"] / ["b-c"] / "a" ["ac"] "a") "a") "a"
r = ("b"? &"a" / &"c" "a"* ("c" / "b" "c" "b" / "b" "ab"))
r = (("a" "a") (["ac"]:(^)) (["a"]))
r = (. / ["a"] "a" "a" / "b" ["b"] "a") / ("a" "a" ["a-b"] / . / ["a-b"] "ab") ("b" "b" "b" / "b")
r = (.. (s "a"+)) s = (["b-c"] > f1)
r = "b" (["ac"] / ["b"] "c" "a") ("b" / "a" / "b" "ab") / ("b" "ab") .
r = (... &"b") ((["ac"]) / ["a-b"] (["ac"]:()) / "b" (["a"] / ["b-c"]) "ab"+) ((["a-b"] ["ac"]))+
r = ((.:()) / "b"* ("ab" "a" / "b" "c" "a" / "c" "a" / "a" "b") / "ab" "b" (["b"]:()) / "b") ("b"? ("a" "a") "b"+ / "a" / ("ab" "b")) "ab"
r = (("a" "a" "c") "a" ("c" ["a-b"] / "b" "b" ["a"] / "b" ["a-b"] "ab") / (["a"] / "b" .)) ((.)+:(^)) / &"c" ("a" ("b" "a" "a") ("a" "c")) (["b-c"])
r = "a" ((["a-b"] / ["ac"] "c" "b" / ["b-c"] "c" "b"):())
r = "b" (["b"] > f1) "b"?
r = (... (... s?)) s = ((.. "a") (["a"] > f1) (. > f2 / ["a"] . > f3))
r = "a" &(["b-c"]:()) "a"
r = &("a" "c" / "a" s "a") ["a-b"] (("b" "ab" "b") "c") / ((["b"] / ["b"])) s = (("c" ["b"] / ["b"]))
r = ("b" (["a-b"] > f1) > f2 / "a" > f3 / ["ac"] . > f4) ((["a"] > f5) ["ac"] (. > f6) > f7 / . > f8)
r = s s = ((["b"] (. > f1) ["b"] > f2 / ["a"] > f3 / ["b-c"] (["a"] > f4) > f5) !"a")
r = (!"c" "b" ("a" "a" / "a" "ab" "ab" / "b" "a" s / "a"))+ s = (("a" "a" "b") ("b" "a") ("a" "b" "a"))
r = (["a"] s ["a"] > f1 / (["ac"] > f2) (["b-c"] > f3) > f4 / ["ac"] ["b-c"] > f5) ((["a"] > f6) ["ac"] > f7) s = ((["a"])?:())
r = ("c" "c") ["ac"] ("ab"* "a" ("b" "ab" "ab")) / . (("b" "a" / "ab") ("ab" "a" "b" / "b" / "b" "b" "b") / "a" ("ab" "a" "b" / "ab" "a") "b"?)
r = ((("a" "c" / "ab" "a" "a" / "b" "b" "b") (["ac"]:()) !"a") (.)?)
r = ("a" "a") ("a" ["b-c"] / ["ac"] "ab" / ["ac"])
r = (("b" / "c" "b" / "ab" "a" "a" / "a") "a" / !"b" "c" / "b" "b"? / &"c") "b" (&"a" &"a" / (["b-c"]:()) ("ab" "c"))
r = ("c" "b")* (["b-c"] > f1)
r = (["b-c"] > f1) (!"c" "a" &"ab")
r = (.:(^)) (["b-c"] / ["b"]) / ["b-c"]
r = ("a" (("b" "c" ["a"]))+ ((["b-c"])+)*)
r = (("c" / "a" "c" / "c" "a") ["b-c"])
r = (["b"] / "c" "c" ["a-b"]) / &"a" . ("a" "c" / "c" "ab" "c" / "ab")
r = ("c" "b" ("a"? ("c" "b" "a") / ("a" "a" "b" / "b" "ab" "ab" / "a" "c") / ("b" "a" "a") &"ab"))
r = ("c" (((["ac"] / "b" ["ac"] / ["b-c"] "c") (... "b") (["a-b"] / "b" "a" ["b-c"])):()))
r = ("b" (["a"]:(^)) s?)+ "b" s = "b"
r = ("b" ((s "b") "ab"? ("ab" "c") / ("ab" "b" "b" / "ab" "b" / "ab" "a") "ab" / "b"+) (("a" / "a" "a" / "b" "c" "c") "a"+ (.:())))? s = "c"
r = (((.. ["ac"]))+:(^))
r = ((["b-c"] > f1):(^))
r = (s "b"+ "ab") s = (("c" "a" / "a" "b" / "a" "c" "a") (["b-c"]:()) / "b")
r = ("b"* "a" "ab") (["a"]:())?
r = ("b" "ab" "a" / "a" / "b" "c") (["b"] "c") (["b-c"] > f1 / (["b-c"] > f2) > f3 / . (["a-b"] > f4) > f5)
r = (["b"] > f1) ((["a-b"]:(^)) (["a-b"] ["a"]))
r = (["b"] "c" "a" / ["b"] / ["a-b"]) (["b-c"])?
r = (("a" "b" / "a" "ab") "c") ["ac"]
r = ("a" / "ab" / "b" "a" / "a" "a" "b")+ ("c" &"a") "b"
r = "a"+ (. / "a" ["b"] "a" / . "b" "a") / "b" (["ac"] "b")
r = ("a" "a") . / ("c" ["b"] / ["ac"] "a" "ab") ("ab" "c" / "b" "c" "b" / "a" "ab" "a" / "ab" "a") ("a" / "b" / "a" / "ab")
r = ("b" "a" / "a" / "a" "b" "a") (["a"] > f1)
r = (((["b-c"] "c" "a")) ("b"* (["a"]:(^))))
r = ("a" "a") (["b-c"] "b" "b" / ["ac"] "ab") / ["b"]
r = (["ac"] > f1 / ["b"] (["ac"] > f2) ["a-b"] > f3 / (["a-b"] > f4) ["ac"] > f5) "b" ("a" / "b" / "a" "a" "c")
r = ["a-b"] ((["b-c"] / "a" ["ac"] / "b" "b" ["a-b"]) "b")
r = ("b" "b") (["ac"] > f1) ((["a-b"] > f2) > f3 / "a" (["a-b"] > f4) (["b-c"] > f5) > f6 / (. > f7) > f8)
r = ((... "ab") > f1 / (["a-b"] "ab") ("b" "ab") > f2 / (["a-b"] > f3) "c"? > f4)
r = ("c" ("a" / "a" "a" "ab")) (("a" "a" "a") / "b" ("b" "a") "ab"* / "a" (["a"]:(^)) "a"* / "b"?) "b"
r = ((.:()) (["ac"] s) ["b-c"]) s = "a"
r = ((["b"])+:()) (["a-b"] > f1)
r = ("b" "c" / "a" / "a" "a" "ab") ("a" "c" / "b" "a" "ab" / "b" / "c")
r = "b" ((["ac"] / ["ac"] "a" / "a" ["b"]) / ["a-b"] ("b" "b" / "c" "a" "b")) ("a" "b" (["a-b"]:())) / (("b" "a" ["a"] / "a" "ab" ["b"] / ["b-c"]))
r = "a" (["a-b"] / "b" ["ac"] "ab" / ["b-c"] "b") / !s ("b" "c" ["a-b"] / . / "a" ["a-b"]) ("c" "a") s = ("a" (["a-b"]))
r = ((["b-c"])? (["a-b"])+)
r = (["b-c"] / (["b"] / "b" ["b-c"] / "a" ["a"] "c")) ("a" ("ab" "b" / "ab" "b" "c" / "b" "b" "a" / "b"))
r = ["a-b"] / ("b" / "ab" / "b" / "a" "a") ("a" ["b"] "a" / ["ac"])
r = ("b" . / "ab" . / ["a"]) / (["a"] "c" / .)
r = (["ac"] . ["ac"] > f1) (. > f2)
r = ("a"? ("a" "c" "b") / "b" / ("ab" "b" / "c" "a") "b"?)
r = (("a" "c" "ab") (. "c" / .) / ("b" ["ac"] / ["ac"] "c" "ab" / .)) (["b"] > f1)
r = (("b" "ab") ["a-b"] ("c" / "c" / "c" / "ab" "c" "ab") / (["ac"] / ["a"]) ("a" "a"))
r = s "ab" s = ((["b"] "a" "b" / "ab" "a" ["ac"]) ("ab" "a" "a" / "c" "a" "c" / "b" "a" "a") &"a" / (["a"] / ["a-b"] / "b" "ab" ["b"]) "a" / .)
r = (["a-b"] / ["ac"] "b" / "b" "a" ["b"]) (["a"]:()) ("b" / "a" "c" "c" / "ab" "a" / "a" "a" "ab") / (["a"] / . "a")
r = (("a" "c" "c") ["ac"])
r = ("a" "ab" / "b" "c" "ab")? "a" ("b" !"ab" / ("b" "c" / "a") "ab"* "c" / ("b" "a" / "a" "a" "c") / ("a" / "a" "ab" "b") ("ab" "b" "b") "b"?)
r = !("c" ("a" "a" "b") ("c"+ "a" ("b" "b"))) "c"
r = (("b" ["ac"] / ["ac"] "ab") ("a" "b" ["a-b"]) > f1 / (["b"] / ["a"] "ab" "ab") > f2)
r = (["ac"]:()) ["a-b"] / (["a-b"]:(^))+ ((["a"] / ["b"]) / . ("b" "b" "b")) (("b" "a") (.:(^)) ("c" "b"))
r = ((. ["b-c"] "b" > f1))*
r = ("b" "a" / "c" "a" "b" / "a") ["ac"] ("a" "b" / "ab" "c") / (["a"])
r = ((["ac"] / "c" ["b"] "b") / ("a" "b" "a" / "b" / "a" "b" "a" / "a" "a" "c") .) ["b"]
r = (["a-b"]) / "a" (["b-c"] "c" "b")
r = ((... "ab") ("a" ["b-c"] / ["b-c"] "a" / "a" ["b"]))
r = (("ab" (["b"] > f1) > f2 / ["ac"] ["a-b"] ["a-b"] > f3 / ["b"] > f4) > f5) ((["a-b"])) "b"
r = ("a" / "ab" / "b" "a")* ((["b"] ["a-b"] "c"):(^)) ((. "b" / ["b-c"]) / (["a"] "b" "c" / ["ac"])) / "a" "b" ["b-c"]
r = ((["b"] > f1) > f2)
r = ((["a-b"])+)? ("c" (["b"] / ["ac"] "b" / ["b-c"]) "b"*)
r = ("a" ["b-c"]) ("a" "ab" "a") "ab"+ / !"c" ("a" "ab" "a" / "ab" "a" "a" / "ab" "c" "a" / "b" "c" "b") ["b-c"]
r = ("b"? .) / ((s / .) "b") ((["b"])+:(^)) s = ("b" (["b-c"]))
r = (("ab" "b") "a") ["b"] / (("c" "b") (["b"]) / "a" ("c" "ab" "b" / "ab") (["a"] "a"))
r = (["b-c"] / "c" . "a") !"a"
r = (("a"+ (["a"] "c" "b") "ab"?))
r = (.. (("ab" ["b"] "b" / ["b-c"] "b") ("b" "ab") / (["a-b"] / ["a"] "a") ("c" "b" "b") / ("c" "ab" "b" / "b" "b" / "a" "b") (["b"]) ("b" "b")))
r = "b" ("b" "ab" "b" / "c")*
r = s "b" s = (["ac"] (["a-b"] "ab" / ["ac"]) "b")
r = (("ab" "a") ("b" "ab" "a" / "a" "b" / "c" "ab") / ("a" "c" / "ab" "a" "a" / "c" "a") (["a-b"]:(^)) / ("a" "a" "c"))
r = "b" ((["a-b"] > f1) > f2 / ["b-c"] > f3 / s ["a-b"] > f4) s = ["a-b"]
r = (.. (s "ab")) s = ["a-b"]
r = (... ((["a"] "a" / "ab" ["a-b"]) > f1 / (["a"] (["a"] > f2) > f3 / ["a"] ["b-c"] "c" > f4) ("ab" ["a-b"]) > f5))
r = ("b" "b" "b") (["a-b"]) ("c" "b") / "b" (["a"]) "ab"?
r = (.) ("a" > f1 / s > f2) ((["a-b"] > f3) > f4 / (. > f5) (["a"] > f6) > f7) s = (["b-c"] > f8)
r = ["ac"] / (("ab" "b") ("ab" "b" / "c" "a" / "b" / "ab" "b") / !"b" ("b" / "b" "ab" / "b" "a") (.:(^))) ["ac"]
r = &("ab" "b" "ab") (("a" "ab" / "b" "a" "a" / "b") "a" ("b" "a" "b" / "ab" "b" "b" / "ab" "a" "a") / ("c" "b" / "a") ("c" "a"))
r = (["ac"] (["a"])* ((["b"] > f1) > f2) > f3 / (["a-b"]) > f4 / (... "a") (["b-c"] "a" / "a" ["b"] / ["b-c"] "ab" "ab") > f5) ["ac"]
r = "ab" (("b" "c" / "a" "ab" "a" / "a" "a" "a" / "ab" "b" "a") / ("a" "b" "a") / (["a-b"]:()) ("b" "b") / !"b" ("b" "b" "b" / "c"))
r = (["b"] "b" / . / "a" ["ac"]) / s ["ac"] s = ("c" / ("a" "a" / "b") "c"? !"a" / ("b" / "a" / "b" / "b") "a"? "b"?)
r = (["a"]) / ("ab"+ ("ab" "a" "a") ("ab" "b" / "c" "ab")) .
r = "a"* (&"a" ("b" "a" "b"))
r = ("b" "b" / "a" "a") "a"+ ["a-b"] / ("a" "a" "ab") (["a"] "b" "ab" / "a" "a" ["b-c"] / ["a"]) "a"
r = "a" (("ab" "ab" "ab") / ("b" "b")) "c"
r = (["ac"] "c" / .) (["b-c"]:()) / (["a-b"])
r = ((["b-c"]):()) "b" "b"
r = (((.)*:(^)) (.:(^)) (("a" / "b") (.)+))
r = (((. / "c" ["ac"] "ab" / "a" ["a-b"]) / "c"+ ["b"] ("b" "b") / "ab"+ (["a"])))
r = (&"a" ("c" "a" / "b" "c" / "a" "b") ["b"] / ("a" . / ["a"] / "b" "ab" ["ac"]) "b" "b"+ / ["b"])
r = (("b" / "a" "a") "c"? "b"+)
r = "ab" ("b" "a" / "a" "a" / "b" "a" "a" / "b" "b") ["a"] / (. / "c" ["a-b"] / .) "b" ("c" "b" / "b" "b" "a" / "c" "c" / "b")
r = ((["b"] ["b-c"] ["a"]))+
r = (("b"* "b"* !"a") "c" (("c" "c") ("b" "a") ("a" "a") / !"b" ("b" "c" "a" / "a" "b" "b") / "c"))
r = "a" ((["a"]) / ["a"] ("a" "a")+ (("a" "ab" "b") ("b" "a" "a"))) / .
r = (... ["a"]) (... ["b-c"])
r = "ab" (("a" / "a" "a" / "a" "ab" "b") "a" "c"?)
r = (("a" "ab") (["a-b"] / s / ["b-c"]) / "a" (["b"] "a" / ["a-b"] / "a" "a" .)) s = (. / ["ac"] / (. "a"))
r = "a" s s = ("a" "c" "ab" / "b" "ab")+
r = (. / "b" ["a"]) / &"ab" "b" ("b" ["a-b"] / "a" ["a"] / ["b-c"])
r = "c" ["a-b"] ("ab" (["a"]:(^))) / ["b"]
r = "c" ("b" (&"a" ("a" "a" "b") ("b" "a" "c") / "b"? "c"))
r = ("a" / "b" "a" "b" / "a" "c" "c") ("c" / "b" "ab" "b" / "c" "ab")
r = (. "ab" / ["a-b"] / ["b"] "b") "b" ("c" "b" / "a" / "c" / "b" "a" "ab") / !"c" . !"a"
r = "a" (["a-b"] / ["b"] / ["a"])
r = (((["a"] > f1))+)*
r = ((["a"] ("c" "c" "a")))
r = (.. (("a" "a" "a") &"b" !"b"))
r = (["a"]) ("b" / "a" "c" / "a" "b") ("a" / "a" "ab" "a" / "b")
r = "c" (("ab" "a" / "b" "a") ("a" "a" "ab" / "ab" "ab") ("ab" / "c" "b" "c") / "a")
r = (["b-c"]) (["b"] "ab" / . / ["b-c"] "c" "ab") (. ["ac"])
r = (["b-c"] / "b" "ab" . / ["ac"]) / "b" ("ab" / "a" / "a") ("b" ["ac"] "c" / ["ac"] "a" "b")
r = ["ac"] (["b-c"] > f1)
r = "c"* ("b" ("a" "ab" "b")) ["b"] / (("a" "c" ["b-c"] / . "b") / ["a"] (.:()) / ["ac"])
r = s s = ((["b"]) "b"? / (. "a") ("a" / "c" "b" "ab") "c" / !"ab" (["b-c"] / ["a"] / ["b"]))
r = ((("ab" "b" ["a-b"] / "a" "ab" ["ac"]) (["a"])+ ("ab" ["a"] "b")))?
r = (["ac"] / ("ab" / "a" / "ab" "b" "a" / "b" "a")? ("b"+ "ab" (["b-c"] "c" / ["a"] / ["a-b"]) / ("a" .) / "c"* (. / "ab" .)))
r = (["ac"] / "a" "c" ["a"]) (["ac"])*
r = ((["a-b"] ["a-b"] ["b-c"] > f1 / "b" ["b"] ["a"] > f2):(^)) "b"
r = s+ "b" s = ((["ac"]:()) ("ab" "c" / "a" / "ab" "ab"))
r = ("a" ["a"]) / . ("ab" "b" "b" / "c" "c" "c" / "ab" "c" / "a")
r = "b" ("a" "c") (["ac"] > f1)
r = ["b-c"] ("b" / "c" s) ("b" / "b" "ab" "b") / (["a"]) s = "a"
r = ("c" / "b" / "a" ("b" "a" "b"* / "a" ("c" / "a" "b" "b" / "a" / "a" "a")) "a"+ / "b" ("b" "b")?) "ab"
r = (. "ab" / &"b" ("a" "a" "b") (["a-b"] / ["a"] / "a" ["ac"] "a") / ("a" ["a-b"]) ("a" "b" "ab")) / "b" .
r = (((["b-c"] > f1) (["ac"] > f2) (. > f3) > f4 / "b" ["a"] > f5))?
r = ((["b"] "ab" "a" / ["b-c"]) / ("b" "b" ["b-c"] / "ab" ["a"] "b" / "a" ["b"]) / ("a" . "ab")) / ("a"+ ("b" "b")) ((["a"]:(^)) "ab") ["b"]
r = (["a-b"] / ("a" "c" / "b" "b") (["a-b"] "a" / ["a"] "b") "ab"+ / (["b"] / ["a"] "a" "a" / "b" .) "b"*) / (["a-b"])
r = (["a-b"] &"ab" &"b" / ("c" "ab" ["b-c"]) "c"* "b"*) / ["a"]
r = (["a-b"] > f1) ("a" (["a"] > f2) > f3)
r = !(("ab" "b") / s / ("a" / "b" / "b") "c"? ("c" "b" "c" / "a")) s = (("b" "c" "a") "b" "b"?)
r = (s? "a") s = (["a"])
r = . / (. "b" / "b" "c" ["a-b"] / "b" ["a-b"]) "ab"*
r = (["a"]:()) ["b-c"] / ("c" / "c") (["a-b"] "a" / ["ac"] "b")
r = ((["b-c"]:()) !"b" / "c"* &"a") (("c" ["a-b"]) / ["ac"] / ("b" "b" "c") (["ac"] "a" "b") ("a" "b")) / . &("b" "ab" "ab")
r = !"b" (["b-c"]) / (["b-c"] / "a" "a" ["b"]) "a"
r = (("c" / "a" "ab" "a") !"ab" &"a" / ("b" / "c" "b" / "b")) (["a-b"] > f1)
r = ["a"] "a"+ / (["a-b"] / ["b"]) "b"
r = "b"+ ["a-b"] / ((["a-b"] "b") / (["a-b"] / "a" "c" ["b-c"] / "a" ["b-c"]) ("b" "a" "a") / ("b" "b" ["ac"]))
r = (["a-b"] > f1) ((["a-b"])*)? (["a-b"] > f2)
r = "ab" ((.. ("a" / s "ab" "b" / "a" "b")):()) s = (("ab" ["ac"] / "ab" ["b"]))
r = ((["a"] / ["a-b"] "a") (["a"] > f1) > f2) "b" "a"
r = ["b-c"] / (. / (. "a" / ["a-b"]) ("ab" "ab" / "c" "a" "a"))
r = "ab" (("c" / "ab" "a" / "b" "a" / "a") "a" / ("b" "b" "ab" / "a" "b" "a" / "ab" "c" / "a") ("a" "b" "a") "b" / "c"*)
r = ("b" / "b" "c" / "c" "b") ["b-c"] / ["b-c"] ("a" / "b" "b" "a")
r = (("b" "b" / "c" / "c" "ab" "a") (["b-c"]:(^)) "a"*) ("b"? "ab"* "b" / ("b" "ab") ("b" "a") ("a" "c" "b" / "a" "a" "ab"))
r = !(((["b"] > f1 / ["ac"] "b" ["a-b"] > f2) "b" > f3 / (["a-b"] > f4) > f5):(^))
r = (["a-b"] > f1) &"a"
r = &(.:()) ((["a-b"] "a" "b" / .) "c"?) / ["a"] (("a" "a" / "b" "c" / "c" "c" "b") "a"? "c"?)
r = (("b" "c") "b" &"a" / ("a" "ab" / "ab" "b" "a") / "c")
r = . / "a"? (["b-c"] / ["b-c"] "b") ("c" "b" / "a" "a")
r = (["b-c"] / ["a-b"] "b" "a") "b"? ("b" "a") / "b" "a" (. "c" "ab")
r = (("b"? ["a"] "ab") / (["a-b"] (["a-b"]:())))
r = ["a-b"] ((["a-b"])+ (["a"])*)
r = &(s (["a"]:()) "b") s = ["a-b"]
r = (((["b-c"] "c" / ["ac"] "b" "a" / "ab" ["a-b"]))+)*
r = (("a" "b" / "a" "ab" "b") "ab" / "b" / "ab")
r = ("a" ["a"] / "b" ["ac"] "b") (["b-c"]:()) / "a" ("a" / "b" "a" / "a" / "b" "b" "a") ["a"]
r = ("c" ["ac"] / ["b"] / .) (s "b" "b") / ["b-c"] &"b" ("a" "ab") s = "a"
r = ((["b-c"] / ["a-b"] "b" / ["b"]))*
r = ["b-c"] / "a" ("b"+ "a" (["b"]:())) ((["b"] "b") !"c" / ("b" ["a-b"]) ("b" "a" "ab") / ("a" "a") (["a-b"] / ["b-c"] "c" "a"))
r = (.. ["b-c"]) ("b" "a" > f1 / (["a-b"] > f2) s . > f3) s = ("c" "a"* ["ac"])
r = (("b" "ab" "a" / "a" "a" / "a" "b" / "c" "b" "ab") / "b" !"c" "c")
r = ("ab"* ("ab" "b" "a" / "a") / "c" &"b" / ("b" / "a" "a" "a") ("b" "a") / (.:(^)) &"b")
r = (... ("a" "a" / "ab" / "a" s)) s = (. > f1)
'''
RANDOM2 = r'''
r = "b" !((["b-c"]:())* ("a"? ("ab" "a") / &"ab" ("c" "b") / ("a" "a" "b") "ab" / "c" "a"))
r = (["a"] / "a" ["b"] "b" / "b" ["b-c"]) / (["a"] "a" "b" / ["a"])
r = (((.. ["b"]):(^)) &("c" "c" / "b" "a" / "c" "b" "a" / "ab" "b")) !"ab"
r = ((["a"] "b" / . ("a" "ab" / "ab" "c" / "c" "a" "a") / (["ac"] / "a" ["a"] "a" / "b" ["a-b"])):())
r = ("c" .) ("a" "b") ("ab" "c") / ["a-b"]
r = &("a" "a" / "b" "c" "b")
r = ((["a-b"] "ab" / ["ac"] "b" / ["ac"] "a") / ("ab" "ab") ("a" ["a"]) / ["ac"] "b" "a")
r = "b" ("ab" "c" ["ac"] / . / ["a-b"]) ("ab" "c" "c") / (["b-c"] "c" / "ab" ["b-c"] / "b" . "ab") ("b" / "a" / "a")
r = (["a-b"] > f1) (["ac"] "ab" / .) "ab"
r = "a" ["ac"] / ["b-c"] ("b" "b" "c") ("c" "a" "ab" / "a" / "b" "ab" s / "ab") s = "ab"
r = (... (["a-b"] ((... "ab"))?))
r = ("a" "b" "a" / "b" "b" / "a" "b" / "c")+ ["ac"] (["ac"] > f1)
r = (["b"] "c" / ["b-c"]) ("a" "c")
r = (["ac"] "a") (["b"] > f1)
r = ("b" > f1) "b" "b"+
r = (!"a" > f1 / ("ab" "a") (["b-c"] > f2) > f3 / (["a"] ["b-c"] (["b-c"] > f4) > f5) > f6) ("b" "ab" !"a")
r = (("ab" "ab")? ("a" &"ab" ("a" s / "a" "c" "b") / "a" "b"*) &("b" "ab" "ab" / "b" / "a" / "b" "b" "c")) s = "ab"
r = ((["ac"] > f1):(^)) s s = ((... ["ac"]))+
r = ((["a"]:()) ("c" "a" "a"))
r = (["ac"] > f1) (["b-c"] / ["ac"] "ab" / "b" ["a"] "a")
r = (("b" ["b"]) (["b"] ["a"]))
r = (s "c") (["b-c"] > f1) s = ["a-b"]
r = (("b" "c" "a" / "b" / "b" "c" "a") / (["a-b"]:()) ("ab" "b"))
r = (["a"] "b" / ["ac"] / "b" "a" ["a"]) (["ac"] "a" / . "a" / "c" "c" ["b"])
r = "c" (("c" / "a" "b" "ab") / ("c" "a" "b" / "a" "b") ("b" "b" "a"))?
r = (("ab" / "ab" "a" / "a" "b" "ab" / "ab") "a" ("ab" "a" . / ["a"] / ["ac"] "b"))
r = ["ac"] / ((["ac"])+:(^)) ((["a-b"])) (("b" "a" "b") "a"* ("c" "ab" / "ab" "a" / "b" "b"))
r = (("a" (["a-b"])+ &"b"))*
r = ("b" "a"? / ("b" "b" "a") / ("ab" "a") ("c" "b" "b") / "b" ("a" "b")) ("a" ("c" "b"))
r = ("a" "b" / "c" / "a" "a" "b")?
r = ("b" s) s = (("a" "c" / "b" / "a" "b" "a") (. / ["a-b"] / ["b-c"] "a") / "b" (["a-b"]:()) (["b"] / ["a-b"] "a" / ["b"]))
r = . (.. ("c" . / ["b-c"])) "b"
r = (!"c" s) ((["b"] "a"):(^)) s = (["a-b"] "c" / ("ab" "b" / "ab" "ab" / "ab") "ab" ["b"])
r = ((["a"] > f1 / ["a-b"] "a" . > f2))?
r = ((((["a"] > f1) (["a"] > f2) > f3 / . > f4))+)?
r = ["b-c"] (["b-c"] > f1)
r = (.. (["a-b"] ["a-b"] (["b"] > f1) > f2 / (["a-b"] > f3) > f4))
r = (("b" / "b" "a" / "ab" "b" "c") ("a" "c" "b" / "a" / "c" "a"))+ ((!"a" (.))) / (["a"])
r = (((s (["a"] > f1) ["ac"] > f2))?)? s = ["a"]
r = "c" (("c" "a") ("c" "b" "b" / "b" / "c" / "b" "ab" "a") (["ac"] "a" "ab") / (["a"] / "a" "ab" ["ac"] / "b" ["a-b"]) / (["a"]))
r = (["a-b"]:()) (((["a-b"] ["b"] ["a"]))?:()) "a"
r = (("a" "c" "b") ("b" "c") / ("ab" "ab" "ab") / "a"? ("a" / "b" "b") / "b"* ("ab" "a" / "a" / "b" "ab" / "b" "b" "ab"))
r = ((.. ["a-b"]) (["a-b"])+ (.)?)
r = ("c" ["b"] / ["ac"]) . (["a"])+
r = ((["ac"] "c" / ["ac"])) / ("a" (["a-b"]:(^))) .
r = ("b" ("ab" "b" "ab" / "c" "c") / ("c" / "b" "a" "a" / "b") / ("a" "c") ("b" "c" "b" / "b" "c") "b" / ("ab" "ab" / "ab" "c" / "a" "b" "b") "b") "a"
r = ["ac"] ("c" / "b" "a" "b" / "ab") / ("a" "c") ["b"]
r = ["b"] / ("ab" "a" ["a-b"] / ["b"] / ["b"])
r = (["a"]) ("c" "b") / ("b" ["a-b"])
r = (. / ["a"] / "a" ["a"] "ab") (["b-c"] "c" / "b" ["a"] "a" / ["a-b"] "b")
r = ("ab" ["ac"] "b" / ["a-b"]) / ("b" "b" / "ab" / "b" "a" "b") ("c" "c" / "a" "a" "b" / "a" "b" "a") ["b"]
r = s* s = ((["b-c"] . "ab"):(^))
r = ((["a-b"] / ["b-c"]))
r = ("b" ["b-c"] "ab" / ["ac"] / ["b-c"]) ("b" "ab" "b" / "a" / "ab" "a" "b") ("b" "a" "a") / ["a"]
r = !(("a" "ab" "b" / "a" "a" / "ab") "a" ("ab" "ab" / "b" / "a" / "a" "b"))
r = (. / .) / ("ab" ["a"] / ["b-c"] "a") ("b" "b")
r = ((("b" "ab" ["ac"] / ["ac"]) "a" "ab"+ / ["a"]) (("ab" / "b" "a" "c" / "b" "a" / "a" "b") ("b" "c" / "b" "b" "ab" / "c" / "c" "b" "ab")))
r = ["ac"] / ["b-c"] ((["b"]:()) "b"?)
r = (!"a" / ("b" "a" "c") ("a" "b") ("a" "c" "c") / "b" ("a" "a") / "a" "c" ("ab" "a" "a")) (("c" "a" "a") !"a") "b"
r = (... (. "a" ["ac"]))
r = ((("b" / "b" "b" "a" / "a" / "a" "a" "a") (["a-b"] "a")))?
r = ("b" ("a" "a" / "b" "b" "b") !"ab") ("a" / !"ab" "b"? "b"+)
r = ("b" (("b" / "c" "a" "c" / "c" "b" "c" / "c" "b") ("b" "b" "a" / "a" "ab" "a" / "b" / "b" "ab")) &("b" "b"))
r = ("b" "a" / "a"+ ("c" "ab"))
r = (.)+ ["ac"] (["a"] / ["ac"])
r = ("b" "b" "a" / "b" "a" / "a") ("ab" "a" ["a"] / "ab" "ab" ["b-c"]) / ("a" "b" ["b-c"]) "b"+
r = ("c" ["b-c"]) !"c"
r = ((["b"] "b" "b"))?
r = (... (.. ["b-c"])) s s = .
r = ((["a"]:()) ("a" "ab" "ab" / "ab" "a") ("c" "c" / "b" / "a" "b")) ("b" ("c" ["b"] / ["b-c"] "a" / ["b"]) ("a" "b" / "ab" "b" "c")) / ["a"]
r = "a"? (("ab" "ab" "b" / "a" "b" "c" / "b")* (!"c" "b" "b" / ("b" "ab")))
r = ["a"] ("b" / "ab" "a") / ["b-c"]
r = (("c" ["a-b"] .):(^))
r = s* ["b-c"] (["a"]:(^)) / ("a" "a" ["ac"]) "a"+ s = (("b" "ab") "ab" ("a" "b"))
r = "a" (("a" "b" / "ab" / "a")? (("ab" "c" / "b") "ab" "a" / "a" (["ac"]:(^))))
r = (("ab" "a") ("a" "a" / "b" / "a")) ["b"] / ((. "b" / ["a"]) / (["a"] "b" / "a" ["b"] "ab") ("b" / "ab" "b" "b" / "a" "a")) "a"+
r = (!"a" ("b" "a") ("a" "b" "b") / "ab" ("a" "ab") "c" / "c"*) ("ab" "ab" / "ab" "ab" / "c")+
r = (("c" ["b-c"] / "a" ["b-c"] "b" / "ab" "a" ["ac"]) &"a" / ("c" . / "ab" ["a-b"] / "a" ["ac"] "b") / (["ac"] "a"))
r = (["b"] "c" "b" / ["b"] "a" "c" / ["a"]) (["a-b"] "c")
r = (.. (((["b-c"] "ab") > f1 / ["b-c"] (... "a") > f2 / (. > f3) ("c" ["a-b"]) > f4) ["ac"] > f5))
r = "c" (("ab" "b" "b") ("a" "ab" / "a" / "c" "ab") "a")*
r = (("a" "b" "a" / "a" "b" / "a" "b" "a") ("b" "a" "a" / "b" "a" "b" / "a" "a" "c" / "a" "a")) ("b" "c")?
r = &("a" / "a") (&"a" ("c" "a" "ab" / "b" "b" / "a"))
r = ((... ["a-b"]):()) ["b"] / . ((["b"] "c" "b" > f1):(^)) (("b" "c" "b" / "c" "ab" "a" / "b") ("c" "c" "b" / "b" "b" "b") / (["b"]:()) "ab"*)
r = (["b-c"] ("ab" "ab" "a") / ("a" "b") ["b"] / ["b-c"]) "b"
r = (["ac"] / ["b"] "b" "b") / ("b" . / "b" "a" ["a-b"])
r = ("b" ["a"] / (["b"]:(^)) (["a-b"] "a" / ["b-c"]) ("b" "a")) / ((["a"] / ["b-c"] "b") / "a" (.) / ("c" ["a"] "b")) ("c" "a")*
r = ("b" ["ac"] "b") ("a" "a" / "b" "ab" "c" / "ab") / (.)
r = (["b-c"] > f1) (["a-b"] > f2) ("ab" / "a" "b" "a" / "a" "c" "a" / "c")?
r = (. > f1) (["b-c"] > f2)
r = (("b"? (. "b" "a"))) / "a" (!"a" ["b"] "b" / ((["b"] "a" ["b"]):()) (("a" / "a" "a" "a") (["a-b"]) / ("a" "b" "a" / "c" / "a") ("ab" ["b"] "a")))
r = ["ac"] / (["ac"] "a" / ["a"] "c") ("b" s "b") s = "a"
r = (("b" / "b" / "b" / "b" "ab" "c") ("ab" "a" / "c") (["b"]:())) ("a" "b" "a")?
r = (["a-b"]) ("ab" / "a" "b" / "ab" "a") &"b" / ("b" "a" / "a" / "c" "b" "a" / "c" "b" "c") (["a"] / "b" . "b" / "a" "a" ["b"])
r = (("b" / "a" "a" "a" / "c") ("b" / "b" "a") "ab" / (.:(^)) "c" ("b" "a") / "a" / "ab")
r = . "a" "c"+ / (["b-c"] / "a" ["a-b"]) "b"
r = ("a" ["a-b"] / .) ("a" / "b" "ab" "b" / "a") "a"* / ("a" "c") ("ab" "ab") (["ac"] / "b" ["b"])
r = (["b-c"] "b" / "a" ["ac"] "a") ("b" "b" "ab") / . "b"* ("b" "b" "b")
r = ("b" ["b-c"] / "a" "c" ["ac"] / "b" "b" ["ac"]) / "c" ["b-c"]
r = (&"c" ("ab" "a" "ab") ("b" "b" "b" / "b" / "b" "b" "b") / "b" "ab" / ("a" "ab") "b" / "b")
r = (["b-c"] ("b" "a" "b") ("b" "b" "a" / "b" / "c" "ab") / ("b" . / ["b"] "b" / "b" ["a"]) ("a" "c")) / ["ac"]
r = (("b" "a" ["a"]) !"a" (["a"] > f1))
r = ((["a-b"] "a" "a"):())+
r = (["b-c"]) ("ab" / "b" "ab" "b") / ("b" "ab" ["a-b"] / "ab" ["b-c"] "c") ("a" "c" / "a" "a") ("b" "a")
r = ((["ac"] (. > f1) > f2 / (. > f3) (["ac"] > f4) > f5) ("c" / "c" "c"))
r = (("b" "b") s) s = (["b"] > f1)
r = ["b-c"] / ["a"] ("a" / "ab" "a" / "b")
r = s s = ((["ac"] > f1) > f2)
r = &((["b-c"] "c" .):())
r = (("a" "b") / "ab"*)
r = (((.. ("c" ["b"] / ["a-b"] "b")) ((... "c") > f1 / (["a-b"] / "ab" "a" ["a-b"]) (["a"] > f2) > f3)) ["b"])
r = ((["b-c"] "b" / "b" "a" ["ac"]))+
r = "c"* ["b"] ("b" ["a"] > f1 / (["ac"] > f2) "b" (. > f3) > f4)
r = "a" ("b" / "b" "ab" / "b" "a" "a") ["b-c"] / (. "a" / . / ["b-c"] "b")
r = ((&"a" / "a" ("a" "a") ("a" "ab" / "c" / "b" "a" "a" / "b" "ab") / (["a"]:())) "a"*)
r = ("b" "ab" / "b" / "a" / "c") ("c" > f1) ("b" / "c" "a" / "a" "c" "b" / "ab" "ab")
r = ("ab" > f1 / (["a"] ["b"] ["a"]) > f2 / ("a" (["b-c"] > f3) ["b"] > f4 / ["a-b"] > f5) . > f6) (("a" ["b-c"]))?
r = &("b" "c" "a") (("a" "b" ["a-b"] / ["b"] "a" "a" / ["b"] "a" "b"):())
r = (((("a" "ab" "c") > f1 / ("ab" "b" "b" / "ab" "b") (["b"] > f2) (["b-c"] "b" / ["b-c"] / ["a-b"] "b") > f3))+)+
r = ("c" "b" (["b"] "c") / (. "b" / ["ac"]) / ("b" "ab" . / "a" ["b"] / ["ac"] "a"))
r = ["a-b"] / . "b" (("b"? ("a" / "b" / s / "ab" "a" "a")) ((["a-b"]:()) &"ab" (["a-b"]:(^)))) s = "ab"
r = ("ab" "b" (&"c" ("a"* (["ac"]:()) / ("b" "ab" / "ab" "ab") "c" ("ab" "a")) ("b" "b" "a" / "b" "b" "a" / "b" / "c" "b")?))
r = "a"? (["b"] ["a-b"])
r = ("a" ["ac"] / ("b" ["ac"] / ["a"] / "b" "ab" ["b-c"]) "a" (["a"]:())) (["a"] > f1)
r = (["b"] > f1) ["b-c"]
r = (!s !"b"+) s = ((["ac"] (["b-c"] > f1) > f2) ("ab" "a" / "c") (["b"] ["ac"]))
r = ((["a"] > f1) > f2)
r = (((. / ["a"] "a" "b"))*:(^)) "b" (. > f1)
r = (["ac"] / "ab" ["b-c"] "b") "a" / ("ab" "b" "a" / "b" / "b") ("ab" / "b" "ab" "c" / "a" "b") ["b-c"]
r = . / ("b" "a" "a" / "b" "a" / "ab" / "b" "a") (["b"] "b")
r = ("a" (["b"] "a" / "b" ["b-c"] / ["ac"]) "c" / ("a" "c" ["a"] / ["a-b"]) / .) ("b" "b"+ > f1)
r = (["b"] "ab" "b" / "ab" "a" ["a"]) ("b" "b" / "b" "a" / "c" "a" "c" / "a") / (["a-b"])
r = ((("c" "a" / "a" "ab" "a" / "a" "a") (["ac"] / "a" ["b"]) "a") > f1)
r = ["a"] / ["a-b"] ("b" / "ab" "b" "c")
r = "a" (("a" "c") s) "c" s = (("a" "ab" "c") > f1 / ["b"] > f2 / "a"? > f3)
r = ("ab" ["ac"] / . ("b" "b" "a" / "a") ("a" "ab") / "c" ("b" "a" . / "a" ["b-c"] / "a" ["b"] "a") "b")
r = ("b" / "c" "b" / "b" "b" "a" / "b" "b")+
r = s ("a"? "b") s = "c"
r = (["b-c"]:(^))+ (("a" "a" / "a" "a" / "ab") "b")
r = (("c" (["b"]) ("b" "c")))*
r = (["b-c"]) ((.. "a"):())
r = ((!"a" "a" / (["ac"]:(^))) &(.:(^)) "c") &("ab" / "ab" "a" ("a" / "b" "ab" "b") / "a")
r = ("c" "b") (["b"] > f1)
r = ((["a-b"] "b" "c")) / ((["b"] / ("c" ["b"] "a" / ["a"])))
r = (["b-c"] / ["ac"] / (("b" "a" / "a") ["b"] "b"* / ("a" ["a"] "a") / ("c" ["b-c"])))
r = ("b"? ("ab" s)) s = (["a"]:(^))?
r = (["a"] > f1) (["ac"] > f2)
r = ("a" ("c"* ("a" "b" "a") (.:()) / ("b" "b" "b" / "b" / "b") (["ac"]:()) (["a-b"]:(^)))) &(&"b" "c"? "c"*)
r = ["ac"] "ab" ("a"+ &"a") / ((["b"]:()) ("a" "a" "b") "b"?) ["a"] (("ab" "ab") ("c" "a") ("b" "a" "ab") / ("c" "a" "a") ("b" "b" "b" / "b") / "c")
r = ("a" . / "ab" "b" ["b"]) / ["b"] "c"
r = ((["b-c"]:()) ("ab" "b" "b" / "b" "a" / "a" "c" "a" / "c" "b") / ("ab" "ab" "a") (["b"]:(^)) (.:()) / "c"+)
r = (["a-b"] / ["b"]) "b"+ ("b" "ab") / ["b"]
r = s? s = (("ab" "ab" "ab" / "a" "a" "a" / "ab") (["a"] "a" / "b" ["b-c"] "b" / ["b-c"] "a") / (["ac"] "ab" / ["b-c"] / "b" ["ac"] "b") "b" "a")
r = (("a" "c" / "ab" "b" "ab" / "c" "c" "b" / "a" "b")* !"b")
r = "c" (("c" "ab" / "a") "b"+ ("ab" "c" ["b-c"] / ["b"])) / (("b" "a" "b" / "b" "c" "b" / "b" "a") "b" "a"*) (["b-c"]) &"ab"
r = "a" (("a" / "b" "ab" / "a" "b" / "a" s) / "a"?) s = !"b"
r = ("b" "c" / "a" "b" "b") ["b-c"] / ["ac"]
r = (["ac"] > f1) (("b" "a" / "b" "ab" "ab" / "c" "a" / "a") "ab" / "a" "a"+ / "c"+ ("b" "a"))
r = "b"* ("c" "c") ((["b"] > f1):(^))
r = (["a"]) / (["a-b"] / ["ac"])
r = (. "a"* / (.) "a" (["a-b"]:()) / (["b-c"]:(^)) (["b-c"] / "c" ["b"] "b" / .)) "b" / ((["b-c"] "c"))
r = (["b"] "c") / (["b"] "a" "b" / ["ac"] "b")
r = ("c" ["b-c"] / "b" ["b-c"] "a") ("a" / "a") / ("ab" ["a-b"]) ("ab" "ab" / "ab")
r = "a" ("b" (!"b" / ("a" "c" "a" / "a" / "c" "c" "ab" / "c" "c") "a"+) (("ab" "c" / "ab") "c"* / !"a" &"b" / "ab" ("a" "a") / "a"?))
r = (("a" "b") s*)* s = ((["b"]:(^)) ("b" "b" / "b" "a" "a" / "ab" "b" "b" / "ab"))
r = ("c" "b") ["ac"] ("b" "c" "c") / ("ab" ["b"] / ["ac"] / "ab" ["b"])
r = ("b"? &"b" / "a" "a"+ / "b" / "b"?) "c" (("a" "a" "b") "c"* / "a" / "b" / ("c" "a" "b"))
r = "a" ["a-b"] / ("b" "b" "a" / "ab" "a" / "c" "a") ["a-b"]
r = ((["a-b"] "c" / "b" ["a-b"] "b" / "b" "a" ["ac"]) / ["b-c"] "b" / (.) ("b" "ab" "c" / "ab" "a" / "b" / "a" "c"))
r = ("a" "a" / (["a"]:(^)) ("ab" "b") ("a" "c" / "a" / "b" / "a") / ("a" "b" "a" / "b" "b" / "c") / ("b" "a" / "ab" "a" "b") "a"? ("ab" "c" "a"))?
r = !("a" ("a" "b" "a" / "b" "a" "ab" / "c" "a" "ab" / "a" "b") !"c")
r = . ["a"] ((["ac"] "c" / "ab" ["a"] "b"))
r = ((("a" "b" "b" / "a" "c" "ab" / "b" "a" "a" / "a") ("b" "ab" / "a" "c" "b" / "ab" "b" "c") "c" / ("b" "a" "c" / "c" / "b" "ab") "c") "b")
r = (("b" ("a" s) "b" / ("c" "a" / "ab" "a" "b") ("a" / "b")) "b" ("a" "b")*) s = ("a" ("b" "a" "a" / "b" / "b") ("c" "ab" / "a" "c" / "ab" / "c"))
r = ("ab" ["a"] "a") (["a"]:(^)) / "ab" ("c" "a" "b" / "b") ["b-c"]
r = (((["b"] ["a-b"] > f1 / (["ac"] > f2) > f3 / (["ac"] > f4) (. > f5) > f6) ("a" "b" ["ac"] / ["ac"]) ("b" "b") > f7))+
r = "c" (["a-b"] > f1)
r = (!"c" ("b" "a") / ("c" "b" "ab") &"b" ("b" / "b" "b")) (.)
r = ((((["b-c"] "ab") s > f1 / ["b"] > f2))+)+ s = ("ab" "ab" / "b")+
r = (s? .) s = (("ab" / "ab" "b" / "a" "a" "a" / "b" "a") (.:()) / (["ac"]:()) / "a"*)
r = (["ac"] / ("b" "b" / "a" "b" / "a") (.) (["b-c"]:(^))) / (("b" ["a"]) ("ab" "a" / "a") ("b" "b" "b"))
r = ("ab" ("b" "a" "c" / "b" "ab" "ab" / "c" "a" "b" / "c" "c" "b") "b"+ / "c" / "b" ("c" / "b" "c" "a"))
r = "ab" (s > f1 / ["ac"] > f2) s = (("a" ["b-c"] / ["b"] "b") ("a" "b") ("b" "a" "b") / ["a"] ("c" / "b" "b") "b" / (["b"] "a" / "a" . "a"))
r = ("a" (["b"]:(^))? ("c" / ("b" "c" "b") ("a" "ab" "a") "a"+)) &(("a" "a") "b")
r = "b" !s+ s = (("a" ["b-c"] "ab") (["ac"]:(^)) / ("a" "b" / "ab" "b" "b" / "b" "b" "b") ("a" ["ac"] / "c" "c" .) ("b" "ab"))
r = (. > f1) (("a" "c" "c") "a" / (["b"]:()) &"b" ("b" "a") / &"a" "b" ("ab" "a" "ab" / "a" / "b" "c") / ("a" "a") (["b-c"]:()) ("ab" "b" "a"))
r = (["b-c"] &"ab") / (("a" ["a"]) "a" / (["ac"]) / "b"* ("b" "c" / "b" "a" / "b") (["a-b"] / . / "a" ["ac"]))
r = (["a"] ("c" "a" "ab") ("c" "b" "b") / (. "a" "ab" / ["ac"] "b") / ["a"]) / &"ab" ["b-c"]
r = "ab" ("a" ("b" / "a"))
r = (["a"] > f1) ("a" ["b"] / "a" ["b"] / ["b"] "a") (["b"] / ["b-c"] / .)
r = (["a"]:()) (["b"] "b" "b" / ["a"] "a" "a" / .) ("ab" "a") / (["ac"] / "b" "ab" ["b-c"] / ["b"] "a" "b") ("a" "c" / "b" "b" "ab")
r = &"a" (("b" / "b" "b" "a" / "a" "a" / "b" "b") ("a" "a" "a" / "a" / "c" "a" "a"))
r = ["b"] / "a" (["a-b"]) (!("b" "a") "b")
r = (["a-b"]) / (s . / ["b"]) s = (("a" "a") ("c" / "b" "a" "ab" / "c" / "c") "b" / ("b" "a" "b"))
r = ["a-b"] / !("c" "ab" "ab") ((.:(^)) ("ab" / "b" "a" "b") (.:(^)) / ("ab" "b" "b" / "ab" / "b") ("c" "a" "ab" / "b" / "ab" "ab") / "b") ["a-b"]
r = ((("a" "b") "c" / ("c" "a" / "a") (["a"]:()) "a"* / "b") ["ac"] (... .))
r = (("ab" "b" / "ab") ("a" "b" "a" / "c") ("b" / "b" "a"))
r = (. "ab" "a") / ("b" "b" / "b" "b" "a" / "b" "b" / "a" "b" "c") ["b"] ("b" "b" "a")
r = ("a" "a" "b" / "b" "a")* ["a"] ("c" "c" "a" / "b" / "c" "c" "b")* / (("b" "a" ["a-b"] / . "a") (.:()) ("b" / "a" "a" "b")) ("b" "b" "b")?
r = ["a-b"] / ("ab" ["b-c"] "a" / ["a"] "a" "a") (.:()) "ab"
r = &"b" ((["a-b"] "c" "c" / "ab" "ab" ["ac"]):())
r = (["a-b"] (["ac"] > f1) > f2 / "ab" > f3 / ["b"] ["a"] > f4) !"a"
r = ("a" "a" "b")* (("b" "ab") "b" / ("b" / "c") "a" / ("a" "ab") "a")
r = (["a"] / ["ac"] "b" "a") / ("a" ["b-c"] "c") ("c" "c") ("a" "c" "b")
r = ("a" ["b"] / ["ac"] / ["a-b"]) ("c" / "c" "a" "a" / "b" / "ab" "c" "b") / (["a-b"] / ["a-b"])
r = ("c" > f1) (["b"]:(^)) ("a" ["a-b"])
r = (["a-b"] ("a" "b") (["ac"])*) ["ac"] ((.) > f1 / (["a-b"])? > f2)
r = ("c" ["a"] "c" / ["a"]) "ab" "b" / !"a" ("c" .)
r = (("a" / "a" "a" "a") ("a" "c" / "ab" / "a" / "ab") ("b" "ab") / ("a" "b" "c" / "c" / "b" / "b" "a") "b" "b" / (["ac"]:(^))) !"b"+ "b"
r = ((. "b" / "a" ["b-c"] / ["b"]))
r = !("a"* "c" ("b" / "ab" "b" / "a" "a" "b"))
r = ["b"] / ("a" ["a"]) ("c" "b" "b" / "b" "a" "a")
r = (. > f1) (["ac"] > f2 / "ab" > f3 / ["b"] (["a"] > f4) > f5)
r = ["ac"] (!"a" / (&"b" "a"+ !"ab") (("b" "b") ("b" "ab") ("b" "b" "c")) ("b" ("a" "c") ("ab" "b" "a" / "b" "b" "a")))
r = (("c" "a" "b") / !"c" / ("c" "a" "b" / "c" "b" "b" / "ab" "b") "a"+ "c")
r = ("a" "ab" "b" / "b" "ab" / "ab" "c" "ab") "ab" . / "b"? ("b" "c" ["a-b"] / "a" ["b"])
r = ("ab" ("a" "b" / "c" "b" / "ab" "a" / "b" "b" "a") "a" / "b" ("a" "b" / "a" "a" "b" / "ab" "c" / "c" "c") / "b"* &"b")? !"b"+
r = (. / ["b"] "a" "a") / ("a" "a" . / "ab" ["a-b"] "a")
r = ((["b-c"] "a" / "c" ["a-b"]))?
r = ("a" "b" ["b-c"] / "a" ["b-c"] "a" / "b" .) / ("a" "a" ["ac"]) &"ab" "a"
r = "b" &("b" ("c" "ab" "a")) "a"
r = ["a-b"] "a"? / &"b" ["ac"]
r = (["ac"] > f1) ((. > f2) > f3 / ((["b-c"]) ("a" "c")) > f4 / (&"b" (["a"]:(^)) (["a"]:(^))) > f5) !"b"
r = (["a"] ("b" / "a" "a" "b") / "c" ["b"] / (["a"]) ("a" / "b" "a" / "b" "b" / "ab" "ab")) / "b" (["b"] / (["b-c"]) ("b" "a" "ab" / "c"))
r = ("ab" / "b" "b" "a") ("c" / "b" "c" "c" / "b" "b" / "c" "ab") ["b-c"] / (["a-b"] "c") ("c" "ab" "a")
r = (.. (.. (["a-b"] > f1)))
r = "b" (("ab" "a" "ab")? (("b" "a" "ab" / "c" "ab" "a" / "ab" / "b" "c" "c") "c"* (["b"]:(^)) / &"a" / ("ab" / "a" / "b" "c") "a" !"c"))
r = ("b" "b" / "c" "b" / "b" "ab" / "b" "a") ("a" "c" ["b"]) / ("b" "c" ["a"] / ["b"] "b" / . "b" "a") (["b"]:(^))
r = (("a" "a" ["a-b"]))?
r = ("a" "b" / "a" "ab" / "a" "c") "b" ["ac"] / ["b"] ("ab" "a" "a" / "ab" "ab" "ab")
r = ((["a-b"]) / ["a-b"])
r = ["a-b"] / (["a"] ("ab" "b" "b" / "a") / .)
r = (["ac"] "ab" / ["a-b"]) (.:(^)) / (["ac"] / "b" ["a"] / ["b"] "ab")
r = (. > f1) "b" ((["a-b"] > f2))*
r = !"a" ("b" / "b" "a" "b")
r = ["ac"] / (("c" "a" . / .) ("a" "b") (["a-b"]:(^)) / ("a" "b" / "a" "c" / "ab" "a" / "ab") ("a" .))
r = (&"c" ("a" "ab" / "b" "c" / "c" "a" "b") "c")
r = (&s (["b-c"]:(^)) "ab") (["a-b"] > f1) s = ["b-c"]
r = (((.)+)* (.. (["a-b"] . "b")) &s) s = (.. (["a-b"]))
r = ((["ac"] / ["b"] / ["ac"] "b") ("b" "a" "a") / "ab"+ (["a"] / ["a-b"]) (["a-b"]:()) / ("a" "b") (["b"]:()) ("a" . / ["b-c"] / ["a-b"] "a"))
r = ((["a"] > f1) ["ac"] > f2 / ["a"] > f3 / (["b"] > f4) "b" (. > f5) > f6) ("b" > f7)
r = s !(((["a-b"] / ["ac"] / ["ac"]) ("b" "ab" "b")):()) "ab" s = ["b-c"]
r = ((. / "b" ["ac"] / "ab" .):())
r = &"c"+ "ab" ["a"] / (&"b" ["ac"] / (["b"]) / (["a"])) "a"
r = "a" ["a"] (("a" "b" "a") / ("b" "ab" "a")) / (("b" ["ac"] "b" / ["b-c"]))
r = &(["b-c"]:(^)) s s = (["b-c"] > f1)
r = ("a" ("b" "a" / "a" / "b" "c" "b") !"c")
r = "a" (("c" "ab" / "b" / "a" "a" / "a" "ab") ("a" "b"))
r = (["a-b"]:(^)) "b"* (["a-b"] "b" / ["a-b"] / "b" ["a"]) / (.:()) ("ab" / "a" "c" "b" / "a" "b" / "ab" "a" "b") ["b"]
r = (!"b" (["ac"] "c" "ab" / ["a"] "a" / ["ac"]))
r = ["a-b"] "c"? "c"+ / ("ab" "c" / "c" / "c" "c" "ab"? / ("a" / "a" "b" "b") ("a" / "b" "c") "b"?) ("b" "c" "c")+ ["ac"]
r = (["b"] "a" / ["b"] s "a" / ["a"] "ab") / . s = ("b"? "ab" / ("b" "c" / "a" / "b" "c" "b" / "c" "a" "a"))
r = ["a-b"] / "c" (("b" "a" / "c" "b" "b" / "b") ("a" "b") (. / "a" ["b"] "c") / &"b" ("a" "a" "a") ["b"] / "b" ["ac"] &"c")
r = (["a"] (["b"] "ab" "b" / "c" ["b"] "b" / ["ac"]))
r = "a" ["b"] !"b" / ("ab" ["b-c"] "a") ("a" "c" "c" / "a" "a" "ab")
r = (["ac"] ["ac"] ["b-c"] > f1) ["a"]
r = ("a" ["b"]) / ("ab" "a" "b" / "a" / "c" "b" "ab" / "ab" "b") &"ab" ["a-b"]
r = ((["a-b"]:(^)) ("a" "c" "b") ["b-c"] / ("c" "b" "a") ("a" . / .)) / ("c" ["b-c"] "a" / ["ac"] "a" / ["a-b"])
r = s s = ((["b-c"] "b"):())
r = ("a" "ab" ["b-c"])
r = ("ab" "a") ["ac"] / (["b"]) "b"+
r = ((["b-c"]) ("a"* "b" "c") / ("c"? !"b" "a" / ("a" "ab")) (.))
r = ((["a-b"]:()) / &"a")
r = (("ab" "a" "ab") ("a" "b" "b") (["a"] "a") / ["a"] / !"c" (["b-c"]))
r = (("c" > f1 / ["b"] . > f2 / (["ac"] > f3) "a" . > f4))* "a" ((.:(^)) / "c"? "c"* ("a" "a" "c") / ("b" "ab" "a" / "b" "a" / "a" "a" "c") ("a" "a"))
r = (("b" "a" "c") ("a" "ab") / !"a" !"a" / &"ab" "a"+ ("a" "a")) (("a" / "ab" "b" / "a" "c" / "c") ("b" "c" / "a" / "a") "ab"?)
r = (("ab" "c" "c" / "a" "b" / "a") (["a-b"] / ["a"]) ("b" "b" "c" / s / "ab" "a") / ["b-c"] / "a" ["b"]) s = "a"
r = ((["b-c"] "b" "a" / ["ac"] "a" / s "a" "b"):(^)) (["a"] / (["a"]:(^)) (["b-c"] / ["ac"] "b" "ab" / ["ac"])) !("c" "a" "a") s = "c"
r = ["a"] / ["a-b"] ("a"+ / ("a" / "b" "a" / "b" "ab") ("a" "a" / "a" "b") / ("b" / "ab" / "a"))
r = ["b"] "ab"? / (&"c" ("b" "b" ["ac"] / ["b"] / "a" ["a"]) / (["b"] "b" / "a" ["b"] / "b" .) ("c" "c" "c")) "c"+
r = ("c" ("a" "ab" "b") (["ac"]:()))*
r = ((["b"] > f1) ("a" ((.. .):())))
r = ("a" "a" "a" / "b" "b" "b") ("b" ["ac"] / "c" "a" ["b"] / ["a-b"]) / "ab" ["a"] (["b-c"]:(^))
r = "a" (. / "c" ["a-b"]) / ["a-b"] ("a" "b" "c")
r = ((["a-b"] "b" "c" / ["b"] "b") (["ac"]:()))
r = (((["ac"]) "b" "b"?) "b")
r = "b" ("c"? ("b" / "ab" / "a" "b")) ((["b-c"] / ["a"] "c" "c") / ("a" ["a-b"] "c")) / ((["a-b"] "a") / ["b"]) ((["b-c"])?:(^)) ("ab" "a" / "c" "b")?
r = ["b-c"] (["b-c"] > f1)
r = ((["a-b"])? ("a" ["a"] / ["a-b"] / s)) s = ["a"]
r = ["b"] / . ("a" "b")
r = ((... (("a" "ab") ("c" "b" "b" / "ab" "ab" / "a" / "b" "b" "a"))))+
r = ((["b-c"] . ["a-b"] > f1 / "b" "b" > f2 / ["ac"] > f3) (. s)) s = (("c" "a"))*
r = ["b"] / ["b"] ("a" / "c" / "b" / "c" "b" "b")
r = "a" ("a" "a") ("b" "a" "b" / ("ab" / "c" / "a" / "b" "a") / (["b-c"]:()) "a"? (s "b" / "a" "ab") / &"a") s = "b"
r = ("ab" ("a" ["ac"] "a" / ["b"]) "a"+ / (["b-c"] "b" / ["ac"] / "c" ["ac"] "a") ("b" "a" / "c" "c") "b"+ / "c"* ["a-b"])
r = (["a"] / "ab" ["ac"] "b" / "c" .) (["b-c"])*
r = (("b" "a" / "a" "a" "a") ("c" "b")) (["ac"]) / ("c" "c")+ ["ac"]
r = "ab" ["ac"] / ("a" "a" "ab") .
r = &("a" / "b" / "a" "b" "ab" / "b" "c" "b") ("b"+ "a") ((["b"] "b" "b")) / (["a"]) ("b" "a" / ("b" "b" / "a" / "b" "b" "b") "ab")
r = (.. ((["a-b"] "ab" / ["a-b"] "b"))+)
r = ["a-b"] !("b" "b" / "a" "b" "b" / "c") / (["a"] ("c" / s "ab")) s = ("ab" "ab")*
r = (("a"+ (["a"] "b" / ["a"] "c" "b")) "ab") / "a" ["a-b"]
r = ((["a-b"] ("a" "c" / "a" "a" "a") / (["b"] / ["a-b"] "b")) (["ac"] > f1))
r = (["b"]:())* "b" "b"*
r = ((. > f1) ["ac"] (["b-c"] > f2) > f3 / ["a"] > f4) (["a"]) (["a"])?
r = (("a" "a") / "c"+ (.:(^)) "b"*)
r = ["b"] / ((["a"] / ["a-b"] "a"))
r = ("b" "b" ["ac"] / "ab" . / ["b-c"]) "a" ("a" "b" / "ab" "b") / ["b"] "b"+
r = ("b" ["ac"] / "c" . "b" / ["b"]) "b"+ ("c" "a" ["a"] / ["a-b"] "c")
r = ((["b"] / ["b-c"] "ab" "a" / "a" ["ac"])) (. > f1)
r = (["a"] "b" / "c" ["b"]) ("ab" / "b" "b" / "b" "b") / ["b-c"] ("b" / "ab") (["b"]:(^))
r = (("c" s))* s = (["a-b"] "a"+ / ["b-c"] / (["ac"] "c" / ["b"] / ["ac"] "a"))
r = ["ac"] / ("ab" ["b-c"] "c")
r = ((. "b" / ["b"] "c" "c") "a" "ab" / "b" ("ab" ["ac"] / "ab" "a" ["b-c"]) / .) ("c" "b" "ab" / "b" "b" / "b" "b" "a" / "a")* (["a"] > f1)
r = s s = ((["a"] / ["b-c"]) / "b" ("b" ["b"] / ["a"] / .))
r = ("b" "a") ["ac"] / ("c" ["b"] "b" / "c" ["b-c"] "ab") "b"
r = "b" ("ab" "b" "ab" / "b" / "a" "a" "a")+
r = ((. "a" / "b" ["b-c"]) ["a"] > f1 / (["a"] "b" "b") (["a-b"] > f2) > f3 / (.)+ > f4)
r = (("a" "b") "ab" ("a" "ab") / "a" (["ac"]:(^)) ("b" "ab" "a") / "a") "b"
r = ["b"] "c" ("a" "b" / "a") / (["b"]:(^)) .
r = ((["b-c"] s))+ s = (["b"] > f1)
r = ("a" / "a" "a" / "b" "a" "c" / "ab") (["ac"] "a" "c") / ("a" "b" / "b" / "b" "c" "a" / "a" "a" "c") ("a" "b" ["ac"] / ["b"])
r = ("b" "a" / "a" / "c" / "b" "a" "ab")+ (("b" "a" / "b" "c" "a" / "a" "ab" / "c") "b"+ "a")
r = (((... ["a-b"]) (... ["a-b"]) "b"))*
r = "b" (["a-b"]) ("a" "a" "a") / !"ab" (["b-c"])
r = (["a-b"] > f1) . ["ac"]
r = (["a-b"] > f1) (s) s = (("b" "b") (["a"])+ (["a-b"])*)
r = (["a"] / (.) / (["ac"] "b" / ["a"])) / "b" .
r = (.. ("a" ["ac"] / ("a" s "ab") "a"+ (["ac"]))) s = (("ab" "a") ("c" "b" "c") ("a" "b" / "b" "b" / "b" / "b" "c") / !"b" !"b" / ("b" "ab") !"b")
r = (["b"] ["a"] > f1 / ["ac"] > f2) (.. s) s = (("b" "b" / "b") ("ab" "a" "b" / "a" / "a" "b" "a" / "b" "c" "a") .)
r = ["a"] ("b" / "b" / "a" "a") / ["a-b"]
r = ["a-b"] (["a"] ["b"] > f1 / "a" "c" > f2)
r = ((. > f1) "b" ["a-b"] > f2 / ["a"] (["b-c"] > f3) ["a"] > f4) .
r = ("b" "a") ("b" ["ac"] / "b" ["ac"]) ("c" "b" "b") / (["b"] "c" "b" / . / ["a-b"]) ("c" "b" / "a" "b" / "a" "c" "a")
r = . (("c" "b" / "b" / "b") ("c" "a") / !"b" ("a" "b" "a")) / ["a-b"]
r = (. "a") (["a-b"]:())
r = ((["b"])*:()) "a" ["a"] / ["b"]
r = (("b" ["b-c"] "b"):()) ("b"? "c")
r = ["b-c"] ("a" "b" "a") / ("b" ["a-b"]) (.:())
r = ["b-c"] / ("a" . / "a" "ab" ["ac"] / "a" "a" ["b-c"])
r = (["b-c"] > f1) (["b-c"] > f2)
r = (.:()) ("b" "ab" ["ac"] / "a" "b" ["a-b"])
r = ["a-b"] (["a-b"] > f1)
r = (["a-b"])+ ("c" . "a" / . "a")
r = (["b-c"] (["b-c"] > f1) > f2 / ["a"] ["ac"] > f3 / (["a-b"] > f4) > f5) (["a"] "b" / ["a"])
r = (((.. "a"))+ (((. > f1) (.)? ((["b-c"] > f2) > f3 / ["b"] "a" ["ac"] > f4) > f5 / (.. ["b-c"]) > f6) > f7))
r = ((&"b" ("a" ["a"] "a") "a"? / ("b" "a" "b") ("b" "b" ["ac"] / "a" .)))*
r = (["a-b"])+ ("b" "c") (["b"] > f1)
r = "c"+ (["a-b"] / "a" . "ab") .
r = "b" . ("a" "ab") / (["ac"] "c" / ["b-c"])
r = ("c"? ["ac"] ("ab" "a" "b") / &"b" ["b"] (["ac"]:(^)) / ["a-b"]) / ((["b-c"])?:()) ((["a"] / .) / ("b" "c") (["b-c"] / ["a"] / "c" ["b-c"] "ab"))
r = ((["b-c"] > f1) > f2)
r = (.. "a") ("a" ["ac"] > f1 / (["b-c"] > f2) > f3)
r = (("b" "ab" / "a" / "c" "b" / "a" "a" "a") ("b" "b" "b") "a"?)
r = ("c" "a" ["ac"] / "c" ["b-c"] "a") / (s "b" "a" / "ab" "ab" / "c" / "b") !"c" (["b"] / ["b-c"] / "b" "b" ["b"]) s = "c"
r = "b" ((.. s):()) s = (["b-c"] "a" / (["b-c"] "c") ("c" "a" "b"))
r = !"b" ("ab" > f1 / . ["b-c"] > f2 / "a" "a" > f3)
r = s s = (["b-c"] > f1)
r = (("b" "a" "a" / "a" "a" "c") !"a" / ("a" "c") ("ab" "b" "c")) ("a"? "a"*) !("ab" / "c" "a" / "c" "ab" "b" / "a" "c" "a")
r = ("b" "c" "a" / "b" "a" "b" / "b" "a")* "a" (!"c" ("b" / "a" "a" "b" / "c" "a"))
r = ((. > f1) ["b"] ["ac"] > f2 / ["b-c"] . ["ac"] > f3 / ["ac"] > f4) (["a"] ["a-b"] "b" > f5 / . > f6)
r = ((["a"] / ["a-b"] / s ["b"]):()) s = ["a"]
r = (["b-c"] "a") "a" / (["ac"] "c" "b")
r = ("c" / "b") (["ac"] "b" / "c" ["a-b"] / "b" ["b"]) / ["a"]
r = ("ab" ["b"]) "b" / ("b" / "ab" "b" "a") (["a-b"] / "b" ["a-b"])
r = ["b"] / "b" (["a-b"] / ("ab" "a" .) &"b" / ("b" / "c" "b" / "b" "b" "a" / "b") ("c" ["a"] / ["a"] / "a" ["b"] "b"))
r = ("c" "b" "b" / "a" "b" "a") ("a" .) / ["a"] (["a"]:(^))
r = (["b-c"] / ["b"] / ["b"] "ab" "c") (["a"]:(^)) "a" / ("a" "a" "a" / "b" "b" "c") ("c" ["a"])
r = ("ab" "ab" "b") ["a-b"] / ("b" / "b" "c" / "ab" "b" "b" / "a" "a") ("b" "a" ["a"] / ["a-b"]) "a"+
r = (["b-c"] ("ab" / "a" "a" / "ab" / "c" "c") (["b"])?)
r = ["a-b"] (((.. ["a"]))+)+
r = (((("ab" "a" "b" / "c" "c" "b") "c" "b" / ("c" "a" / "a" "a" "c" / "a" "a" "ab") "a"? / "a"? "b" "ab") ["b"]))+
r = (["b-c"] / ["b-c"] / "ab" .) (["ac"])*
r = (. > f1) (("b" "a") "b" / "b" "ab" (["a"]:(^)))*
r = . ((["ac"]:(^)) / "c") / (("c" "c" ["ac"] / "b" ["b"] "a"))
r = ((. ["a"] ["b-c"]))?
r = ((. "ab" / "a" "c" .) / ["b"]) ((["ac"] ["a-b"]):(^)) / (!"a" ("a" "b" "ab") "b") ["ac"]
r = (["a"] > f1) (. > f2)
r = "a" ("c" ("ab" / "ab" "b" "c" / "a" "a" "a" / "a" "a" "c") / !"b" ("b" "ab") "ab" / "a" ("ab" "c") ("ab" "c" "b"))*
r = (["a-b"])? ((. > f1) ["ac"] "a" > f2 / ["ac"] "ab" > f3)
r = (["ac"] (["ac"] > f1) "b" > f2 / "a" > f3 / ["a"] ["a-b"] > f4) ["a-b"] (["a-b"] / ["a"])
r = (["a-b"] / (["b"] / "a" ["a-b"] / "ab" ["a-b"]) ("c" "c") ("b" "ab") / ("ab" "c" "a" / "b" "ab" "b" / "ab") (["a"] "b" / "ab" "c" . / .)) "c"
r = (s ["a-b"] / ["a-b"] "ab" "a" / ["ac"]) (["a-b"]:(^)) s = (("b" "a" / "b" "ab" / "ab" "a" "a") ("a" "c" / "a" "ab" "a"))
r = ("a" ["ac"] "a") (["b-c"] / . "b" "a" / "c" s ["ac"]) s = "b"
r = (... (s "a" "c")) s = (!"b" "b"*)
r = (("a" "a" "c") !"ab" !"b" / "b" ("b" / "b" / "ab" "a"))
r = ["a-b"] (.. "a") (["ac"] (. > f1) ["a-b"] > f2 / (["a"] > f3) (["b-c"] > f4) ["ac"] > f5 / "ab" > f6)
r = ((("a" "ab" / "c") (["a"] > f1 / ["ac"] > f2) "a"))*
r = (.. ("b" ("a" ("b" / "c" "c")) / (("b" / "ab" / "b" / "c" "b" "b") (.:()) ("a" "b" "a")) "b"))
r = ((["a-b"] / ["b-c"] "c"))?
r = (["b"] > f1) ("a" "b" > f2) (["a-b"] / "c" "c" ["a"])
r = ["b-c"] "b" ("ab" "b" "c" / "b" "ab") / ["ac"]
r = (s "b" ["a"]) "b"+ / ("a" "c" .) s = ((["b"])+:())
r = ("ab" / "ab" "a" "a" / "a" "a" "a" / "b" "b" "c") . "a" / (["ac"] "ab" / ["ac"]) ("a" "a" / "a" "a" "b") ("a" / "ab" "b" "a" / "ab" / "a")
r = (["a-b"] > f1) (["ac"]) ["a"]
r = (("ab" "a") ("c" "ab" "c" / "a" "a" "b") / ("ab" "a" / "b" / "a" "c" "a" / "b" "b" "a") ("a" "b" "a") "ab"*)
r = (("a" ["ac"] / "b" "a" ["a-b"] / ["ac"] "ab") / (.) / (["ac"]:()) ("a" "b") ["b-c"])
r = ["ac"] "c" / ("b" "b" . / ["b-c"] "c" "b")
r = ((... (.)?) (("a" "b") (.. ["b"])))
r = (. / "a" "c" ["a-b"] / ["ac"]) (["a-b"] "a" "b" / ["b"]) (["b-c"] "a")
r = ("b" "a" ["b"] / ["b"] "a" / "ab" ["b"]) "b" &"a" / ("b" "c" ["a-b"] / "ab" ["ac"] "a" / "b" ["ac"])
r = ((["a-b"] "a" "c") / ("c" . / ["a"] "b" / ["b"] "c") ("c" "b") / (["a"] "a"))
r = ("b" "ab"? (("a" (.:(^))) &"b")) "c"
r = &(["ac"]:()) &"b"+
r = (("b" . / ["a-b"]) "ab"* / ["ac"]) (("c" "ab" ["b"] / ["b"]))
r = (["a"] / . / ["a-b"]) (["b-c"])
r = ((.. ["a-b"]))+ (("b" ["b-c"]):())
r = ("b" ("b" "a" / "b")) "b"
r = (["ac"]) / ("b" ["ac"]) ("c" "a" "ab")
r = (!"b" (["b-c"] > f1) (. > f2) > f3)
r = ("ab" "c" "a" / "c" "b" "ab")+
r = (["ac"] ["b"] ["b-c"] > f1 / "ab" > f2 / "a" (["b-c"] > f3) ["a-b"] > f4) "ab"? (["a-b"])
r = (("c" "c" / "a" / "b" "c" "ab") "b" "b") "a" ["ac"] / ((["b"])?:(^)) (("ab" "a" ["b"] / ["a-b"] "b" / ["b"]) / ["a"])
r = "b" ["ac"] ("c" / "b" "b" "b" / "b" "b" "c") / ("b" ["a"] "c") "a"+
r = (["b"] / "b" ["ac"] "b" / ["b-c"]) ["b"]
r = (("b" "c" "b" > f1):()) "a"
r = (("a" . / "a" ["ac"] / ["a-b"]):(^)) (("b" ["a"] ["b-c"]):())
r = ("b" "ab" / "b" "ab" "b" / "b" / "b" "b" "b") (["b"] / ["b-c"]) ["ac"]
r = (.) (["a-b"] (["b"] > f1) (["a-b"] > f2) > f3 / ["b"] "b" ["a-b"] > f4)
r = ((("b" / "a" "a" / "c" / "ab") "c"?) s) s = (("b" "a" / "b") !"b" / "b" / ("a" / "a" "c") "b"+)
r = ("b" "b" "b" / "ab" / "ab" "ab" / "a" "a") (["b-c"] / ["b-c"] "c" "c") "b" / ["a"] ("a" / "ab" "c" "b") ("a" "b" "a")
r = &((["a-b"]:(^)) "c")
r = ((["b-c"])* (... ["b-c"]) (["b-c"]:(^)))
r = ("ab" "b" "ab") ["a"] / "a" (["a"]:()) (["b-c"])
r = ("b" s ["ac"] / "ab" ["b-c"]) / "ab"* ["b-c"] !"a" s = "c"
r = (("ab" ["a-b"] / "b" ["a"] / ["ac"] "ab"))+
r = (("a" "ab") "c" ("c" "b" "c" / s "b" "b" / "b" "a" / "b") / "c" (["b"]:(^))) s = (("b" "c" "c" / "a") "a"? ("b" "b"))
r = (("ab" / "a" / "b") ["b-c"])
r = (("c" "a" / "b" "a" "a" / "a" "ab" "a") ("b" "b") / "b" / ("b" / "b" "b") / (["a"]:()) &"b")
r = (. "c" ["b-c"] > f1) ["ac"]
r = (["b-c"] "a" / "a" .) (["a-b"] "b")
r = (("ab" "ab" "c") (["ac"] / "a" ["a"] "a" / "c" ["a-b"]) ("c" / "b") / ("c" ["b-c"] "a" / ["b"]) / (.) "ab"* !"b") ("a"+ ["a"] "b"*) (["a"] > f1)
r = (["b-c"]:()) (["b-c"] / ["ac"] s) s = !"b"
r = (. / "a" ["b"] / "ab" ["b"] "b") / (["b"]:(^)) ("c" "ab" ["b"] / ["ac"] "a" / "b" ["a-b"])
r = ("a"? ("b" "b" ("ab" "c" / "c")))
r = ((... s) ("b" "c")) s = "c"
r = ((. "b" "c" / "a" ["b-c"]) ("a" / "b" "c" / "ab" "b"))
r = ((["b"]) ("c" "ab" "a") "a" / ["ac"] (["ac"]:())) ((["ac"])*)? (("b" "c" ["a-b"] / "a" ["a"] "a") ("b" "a") / ("b" ["b-c"] / .))
r = (["b-c"] / ("b" "b" ["ac"] / "b" "c" . / ["b"] "ab" "a") "a"? ("a" / "c" "b" / "c" / "a" "b" "a"))
r = ("ab" "c" / ("ab" "a" "ab"))
r = ((. "ab" / ["ac"] "c"):())+ (("b" "c" "ab"):(^))?
r = ("a" ("b" "c" "c" / "b" "b" / "a" "b" / "b" "a"))
r = ((["a"])+ ((.. "a") ((. ["b-c"] .))* .))
r = (((["b"] > f1) > f2) ("a" / "c"))
r = (["b-c"] > f1) (["a-b"] / "ab" "ab" ["a"] / ["b"] "c")
r = . "a" "a" / ["ac"] "b"
r = (.. ("b" "a" "b" / "a"))
'''

# character classes at their edges
CLASSES = r"""
r = ["-"]
r = ["--"]
r = ["-a"]
r = ["a-"]
r = ["-a-"]
r = ["-a-c-"]
r = ["a-c-"]
r = ["b-a"]
r = ["c-ax"]
r = ["a-a"]
r = ["a-cb-d"]
r = ["aab-ba"]
r = ["0-9a-zA-Z_"]
r = [" -~"]
r = ["\u{0}-\u{7f}"]
r = ["\u{0}"]
r = ["\u{80}-\u{7ff}"]
r = ["\u{7f}-\u{80}"]
r = ["\u{800}-\u{ffff}"]
r = ["\u{d7ff}-\u{e000}"]
r = ["\u{ffff}-\u{10000}"]
r = ["\u{10ffff}"]
r = ["\u{0}-\u{10ffff}"]
r = ["é-ü"]
r = ["à😀-😂z"]
r = ["'\"\\"]
r = ["\n-\r"]
r = ["]-["]
r = ["[-]"]
r = ["{}%#"]
r = ["x^-`"]
r = ["!"]+ ["a-c"]? .
r = ["a-c"]* ["b"]?
r = !["a-c"] .
r = (["a-f"] / ["e-k"]) ["g-z"]
"""
