-------------------------------- MODULE Passes --------------------------------
(* What rendering passes make of a map's objects.  A case holds the declared  *)
(* types with their variables, the dictionary of tiles (lists of objects),    *)
(* the tiles row by row from the top, the rectangle asked for, the passes     *)
(* asked for and the configuration.  The machine first settles which passes   *)
(* run, then expands each dictionary entry (choosing wherever a pass chooses  *)
(* at random: every choice is a behaviour), then draws tile after tile.       *)
EXTENDS VCommon

VARIABLES cid, status, at, passes, tiles, sprites
vars == <<cid, status, at, passes, tiles, sprites>>

C == Cases[cid]
Absent == [k |-> "absent", i |-> 0, s |-> "", l |-> <<>>]

------------------------------------------------------------------------------
(* Which passes run                                                           *)
All == <<[n |-> "hide-space", d |-> TRUE], [n |-> "hide-areas", d |-> TRUE], [n |-> "hide-invisible", d |-> TRUE], [n |-> "random", d |-> TRUE],
         [n |-> "pretty", d |-> TRUE], [n |-> "spawners", d |-> TRUE], [n |-> "overlays", d |-> TRUE], [n |-> "transit-tube", d |-> TRUE],
         [n |-> "gravity-gen", d |-> TRUE], [n |-> "only-powernet", d |-> FALSE], [n |-> "only-pipenet", d |-> FALSE], [n |-> "fancy-layers", d |-> TRUE],
         [n |-> "icon-smoothing-2016", d |-> FALSE], [n |-> "icon-smoothing", d |-> TRUE], [n |-> "icon-smoothing-2025", d |-> FALSE],
         [n |-> "smart-cables", d |-> TRUE], [n |-> "only-wires-and-pipes", d |-> FALSE]>>
(* What the user names wins over "all", which wins over the configuration,   *)
(* which wins over what is usual.                                             *)
Configured(n) == LET S == {i \in 1..Len(C.config) : C.config[i].n = n} IN IF S = {} THEN "no" ELSE IF C.config[CHOOSE i \in S : TRUE].on THEN "on" ELSE "off"
Runs(p) ==
  CASE Has(C.include, p.n) -> TRUE
    [] Has(C.exclude, p.n) -> FALSE
    [] Has(C.include, "all") -> TRUE
    [] Has(C.exclude, "all") -> FALSE
    [] Configured(p.n) # "no" -> Configured(p.n) = "on"
    [] OTHER -> p.d
On(n) == n \in passes

------------------------------------------------------------------------------
(* Types and variables                                                        *)
TypeIx(p) == LET S == {i \in 1..Len(C.types) : C.types[i].path = p} IN IF S = {} THEN 0 ELSE CHOOSE i \in S : TRUE
VarIn(vs, x) == LET S == {i \in 1..Len(vs) : vs[i].x = x} IN IF S = {} THEN Absent ELSE vs[CHOOSE i \in S : TRUE].v
Number(i) == [k |-> "num", i |-> i, s |-> "", l |-> <<>>]
BuiltinVar(p, x) ==
  CASE x = "layer" /\ p = "/area" -> Number(16) [] x = "layer" /\ p = "/turf" -> Number(32)
    [] x = "layer" /\ p = "/obj" -> Number(48) [] x = "layer" /\ p = "/mob" -> Number(64)
    [] x = "dir" /\ p = "/atom" -> Number(2) [] OTHER -> Absent
RECURSIVE TypeVar(_, _)
TypeVar(t, x) ==
  IF t = 0 THEN Absent
  ELSE LET own == VarIn(C.types[t].vars, x)
           v == IF own # Absent THEN own ELSE BuiltinVar(C.types[t].path, x) IN
       IF v # Absent THEN v ELSE TypeVar(C.types[t].up, x)
(* An object on the map: its type and the variables set in place. *)
Value(o, x) == LET v == VarIn(o.vars, x) IN IF v # Absent THEN v ELSE TypeVar(o.t, x)
Num(o, x, d) == LET v == Value(o, x) IN IF v.k = "num" THEN v.i ELSE d
Str(o, x) == LET v == Value(o, x) IN IF v.k = "str" THEN v.s ELSE ""
IsStr(o, x) == Value(o, x).k = "str"
Yes(o, x) == LET v == Value(o, x) IN CASE v.k = "num" -> v.i # 0 [] v.k = "str" -> v.s # "" [] v.k = "list" -> TRUE [] OTHER -> FALSE
IsA(t, p) == Has(C.types[t].isa, p)
Is(o, p) == IsA(o.t, p)
New(t) == [t |-> t, vars |-> <<>>]
Facing(d) == IF d \in {1, 2, 4, 8, 5, 6, 9, 10} THEN d ELSE 2

------------------------------------------------------------------------------
(* What is hidden from the start                                              *)
Early(o) ==
  /\ On("hide-areas") => ~Is(o, "/area")
  /\ On("hide-invisible") =>
       /\ ~Is(o, "/obj/effect/spawner/xmastree")
       /\ \A i \in 1..Len(C.hidden) : ~Is(o, C.hidden[i])
       /\ Num(o, "invisibility", 0) <= 60
       /\ ~Is(o, "/obj/effect/mapping_helpers")
       /\ ~(Str(o, "icon") = "icons/obj/items_and_weapons.dmi" /\ Str(o, "icon_state") = "syndballoon" /\ ~Is(o, "/obj/item/toy/syndicateballoon"))

(* What stands in for an object: a set of possible lists of objects.          *)
Children(p) == LET t == TypeIx(p) IN IF t = 0 THEN {} ELSE {i \in 1..Len(C.types) : C.types[i].in = p}
Plain(S) == {i \in S : C.types[i].last # "random"}
OneOf(S, o) == IF S = {} THEN {<<o>>} ELSE {<<New(i)>> : i \in S}

(* Loot: entries with their weights are drawn until there is enough or none  *)
(* is left; an entry drawn is gone unless doubles are allowed.                *)
Spawned(e) == IF e.k = "path" /\ TypeIx(e.s) # 0 THEN <<New(TypeIx(e.s))>> ELSE <<>>
Total(l) == FoldSeqL(LAMBDA a, e : a + e.w, 0, l)
Drawn(l) == LET S == {i \in 1..Len(l) : l[i].w > 0} IN IF S = {} THEN 1..Len(l) ELSE S
RECURSIVE Loots(_, _, _)
Loots(l, n, doubles) ==
  IF n <= 0 \/ l = <<>> THEN {<<>>}
  ELSE UNION {LET rest == IF doubles THEN l ELSE SelectSeq(l, LAMBDA e : e.s # l[i].s \/ e.k # l[i].k) IN
              {Spawned(l[i]) \o x : x \in Loots(rest, n - 1, doubles)} : i \in Drawn(l)}

RECURSIVE Listed(_)
Listed(l) == IF l = <<>> THEN <<>> ELSE (IF TypeIx(Head(l).s) # 0 /\ Head(l).k # "num" THEN <<New(TypeIx(Head(l).s))>> ELSE <<>>) \o Listed(Tail(l))

Expanded(o) ==
  CASE On("hide-space") /\ Is(o, "/turf/template_noop") -> LET t == TypeIx("/turf/open/space") IN {IF t = 0 THEN <<>> ELSE <<New(t)>>}
    [] On("random") /\ Is(o, "/obj/machinery/vending/snack/random") -> OneOf(Plain(Children("/obj/machinery/vending/snack")), o)
    [] On("random") /\ Is(o, "/obj/machinery/vending/cola/random") -> OneOf(Plain(Children("/obj/machinery/vending/cola")), o)
    [] On("random") /\ Is(o, "/obj/item/bedsheet/random") -> OneOf(Plain(Children("/obj/item/bedsheet")) \cup {TypeIx("/obj/item/bedsheet")}, o)
    [] On("random") /\ Is(o, "/obj/effect/spawner/lootdrop") ->
         IF Value(o, "loot").k = "list" THEN Loots(Value(o, "loot").l, Num(o, "lootcount", 0), Yes(o, "lootdoubles")) ELSE {<<>>}
    [] On("spawners") /\ Is(o, "/obj/effect/spawner/structure") /\ Value(o, "spawn_list").k = "list" -> {Listed(Value(o, "spawn_list").l)}
    [] OTHER -> {<<o>>}

RECURSIVE Tiles(_)
Tiles(os) ==
  IF os = <<>> THEN {<<>>}
  ELSE LET here == IF Head(os).t # 0 /\ Early(Head(os)) THEN Expanded(Head(os)) ELSE {<<>>} IN
       {a \o b : a \in here, b \in Tiles(Tail(os))}

------------------------------------------------------------------------------
(* What is left when its turn comes                                           *)
Late(o) ==
  /\ On("hide-space") => ~Is(o, "/turf/open/space")
  /\ On("only-powernet") => Is(o, "/obj/structure/cable")
  /\ On("only-pipenet") => Is(o, "/obj/machinery/atmospherics/pipe")
  /\ On("only-wires-and-pipes") => (Is(o, "/obj/structure/cable") \/ Is(o, "/obj/machinery/atmospherics/pipe"))

(* Layers, in sixteenths.                                                     *)
Override(o) ==
  LET S == {i \in 1..Len(C.layers) : Is(o, C.layers[i].path)}
      best == CHOOSE i \in S : \A j \in S : C.layers[i].n >= C.layers[j].n IN
  IF S = {} THEN 0 ELSE best
FancyLayer(o, d) ==
  CASE Override(o) # 0 -> C.layers[Override(o)].layer
    [] Is(o, "/turf/open/floor/plating") \/ Is(o, "/turf/open/space") -> -160
    [] Is(o, "/turf/closed/mineral") -> -48
    [] Is(o, "/turf/open/floor") \/ Is(o, "/turf/closed") -> -32
    [] Is(o, "/turf") -> -160
    [] Is(o, "/obj/effect/turf_decal") -> -16
    [] Is(o, "/obj/structure/disposalpipe") -> -96
    [] Is(o, "/obj/machinery/atmospherics/pipe") /\ ~C.types[o.t].visible -> -80
    [] Is(o, "/obj/structure/cable") -> -64
    [] Is(o, "/obj/machinery/power/terminal") -> -56
    [] Is(o, "/obj/structure/lattice") -> -128
    [] Is(o, "/obj/machinery/navbeacon") -> -48
    [] OTHER -> d
VentStates == [k \in {"vent_map-1", "vent_map-2", "vent_map-3", "vent_map-4"} |-> "vent_off"]
  @@ [k \in {"vent_map_on-1", "vent_map_on-2", "vent_map_on-3", "vent_map_on-4"} |-> "vent_out"]
  @@ [k \in {"vent_map_siphon_on-1", "vent_map_siphon_on-2", "vent_map_siphon_on-3", "vent_map_siphon_on-4"} |-> "vent_in"]
  @@ [k \in {"scrub_map-1", "scrub_map-2", "scrub_map-3", "scrub_map-4"} |-> "scrub_off"]
  @@ [k \in {"scrub_map_on-1", "scrub_map_on-2", "scrub_map_on-3", "scrub_map_on-4"} |-> "scrub_on"]
Vent(o) == Is(o, "/obj/machinery/atmospherics/components/unary") /\ Str(o, "icon_state") \in DOMAIN VentStates

------------------------------------------------------------------------------
(* Sprites                                                                    *)
Named(s) == CASE s = "red" -> <<255, 0, 0>> [] s = "navy" -> <<0, 0, 128>> [] OTHER -> <<255, 255, 255>>
Base(o) ==
  [icon |-> Str(o, "icon"), state |-> Str(o, "icon_state"), dir |-> Facing(Num(o, "dir", 2)),
   col |-> Append(Named(Str(o, "color")), Num(o, "alpha", 255)),
   ox |-> Num(o, "pixel_x", 0) + Num(o, "pixel_w", 0), oy |-> Num(o, "pixel_y", 0) + Num(o, "pixel_z", 0),
   plane |-> Num(o, "plane", 0), layer |-> Num(o, "layer", 32)]

Contraband == {"aspev_syndie", "microwave", "singletank_bomb", "kudzu", "free_drone", "lusty_xenomorph"}
Legit == {"aspev_hardhat", "aspev_piping", "aspev_meth", "aspev_epi", "aspev_delam", "cleanliness", "help_others", "build", "bless_this_spess",
          "science", "ue_no", "safety_internals", "safety_eye_protection"}
Relics == {"shock_kit", "armor-igniter-analyzer", "infra-igniter0", "infra-igniter1", "radio-multitool", "prox-radio1", "radio-radio",
           "timer-multitool0", "radio-igniter-tank"}
Tapes == {"tape_white", "tape_blue", "tape_red", "tape_yellow", "tape_purple"}
Two(n) == IF n < 10 THEN "0" \o ToString(n) ELSE ToString(n)
Plants == {"applebush"} \cup {"plant-" \o Two(n) : n \in 1..29}
(* Signs which may be hung: those with a picture, and not hidden ones. *)
Signs ==
  {VarIn(C.types[i].vars, "icon").s : i \in {j \in Children("/datum/barsign") :
     VarIn(C.types[j].vars, "icon").k = "str" /\ ~Yes([t |-> 0, vars |-> C.types[j].vars], "hidden")}}
OneState(S, s) == IF S = {} THEN {s} ELSE {[s EXCEPT !.state = x] : x \in S}
Randomly(o, s) ==
  IF ~On("random") THEN {s}
  ELSE CASE Is(o, "/obj/structure/sign/poster/contraband/random") -> OneState(Contraband, s)
         [] Is(o, "/obj/structure/sign/poster/official/random") -> OneState(Legit, s)
         [] Is(o, "/obj/structure/sign/poster/random") -> OneState(Contraband \cup Legit, s)
         [] Is(o, "/obj/item/kirbyplants/random") \/ Is(o, "/obj/item/twohanded/required/kirbyplants/random") ->
              OneState(Plants, [s EXCEPT !.icon = "icons/obj/fluff/flora/plants.dmi"])
         [] Is(o, "/obj/structure/sign/barsign") -> OneState(Signs, s)
         [] Is(o, "/obj/item/relic") -> OneState(Relics, s)
         [] Is(o, "/obj/item/lipstick/random") -> {[s EXCEPT !.state = "lipstick"]}
         [] Is(o, "/obj/item/tape/random") -> OneState(Tapes, s)
         [] OTHER -> {s}
Prettily(o, s) == IF On("pretty") /\ Is(o, "/obj/structure/bookcase") THEN [s EXCEPT !.state = "book-0"] ELSE s
Placed(o, s) ==
  IF ~(On("overlays") /\ Is(o, "/obj/machinery/power/apc")) THEN s
  ELSE CASE Num(o, "dir", 0) = 1 -> [s EXCEPT !.oy = 23] [] Num(o, "dir", 0) = 2 -> [s EXCEPT !.oy = -23]
         [] Num(o, "dir", 0) = 4 -> [s EXCEPT !.ox = 24] [] Num(o, "dir", 0) = 8 -> [s EXCEPT !.ox = -25] [] OTHER -> s
Layered(o, s) ==
  IF ~On("fancy-layers") THEN s
  ELSE [s EXCEPT !.plane = 0, !.layer = IF Vent(o) THEN -80 ELSE FancyLayer(o, s.layer)]
Adjusted(o) == {Layered(o, Placed(o, Prettily(o, s))) : s \in Randomly(o, Base(o))}

------------------------------------------------------------------------------
(* Overlays and underlays of an object whose sprite is s.                     *)
With(s, state) == [s EXCEPT !.state = state]
If(b, x) == IF b THEN <<x>> ELSE <<>>
Shifted(o, s, x, y) == [s EXCEPT !.ox = @ + Num(o, x, 0), !.oy = @ + Num(o, y, 0)]
Crate(o, s) ==
  (IF Yes(o, "opened") THEN <<>>
   ELSE IF Yes(o, "broken") THEN <<With(s, "securecrateemag")>>
   ELSE IF Yes(o, "locked") THEN <<With(s, "securecrater")>>
   ELSE If(Yes(o, "secure"), With(s, "securecrateg")))
  \o If(Yes(o, "welded"), With(Shifted(o, s, "weld_w", "weld_z"), "welded"))
  \o If(Yes(o, "opened") /\ IsStr(o, "lid_icon_state"),
        With([Shifted(o, s, "lid_w", "lid_z") EXCEPT !.icon = IF IsStr(o, "lid_icon") THEN Str(o, "lid_icon") ELSE @], Str(o, "lid_icon_state")))
Closet(o, s) ==
  IF ~Yes(o, "enable_door_overlay") THEN <<>>
  ELSE IF Yes(o, "opened")
  THEN LET x == IF Yes(o, "icon_door_override") THEN "icon_door" ELSE "icon_state" IN If(IsStr(o, x), With(s, Str(o, x) \o "_open"))
  ELSE LET door == IF Value(o, "icon_door").k \in {"null", "absent"} THEN "icon_state" ELSE "icon_door" IN
       If(Yes(o, "has_closed_overlay") /\ IsStr(o, door), With(s, Str(o, door) \o "_door"))
       \o If(Yes(o, "welded"), With(s, "welded"))
       \o If(Yes(o, "secure") /\ ~Yes(o, "broken"), With(s, IF Yes(o, "locked") THEN "locked" ELSE "unlocked"))
Airlock(o, s) ==
  IF Yes(o, "glass") THEN If(IsStr(o, "overlays_file"), [With(s, "glass_closed") EXCEPT !.icon = Str(o, "overlays_file")])
  ELSE If(Yes(o, "can_be_glass"), With(s, "fill_closed"))
OverlaysOver(o, s) ==
  CASE Is(o, "/turf/closed/indestructible/fakeglass") -> <<>>
    [] Is(o, "/obj/structure/closet/crate") -> Crate(o, s)
    [] Is(o, "/obj/structure/closet") -> Closet(o, s)
    [] Is(o, "/obj/machinery/computer") \/ Is(o, "/obj/machinery/power/solar_control") ->
         If(IsStr(o, "icon_screen"), With(s, Str(o, "icon_screen"))) \o If(IsStr(o, "icon_keyboard"), With(s, Str(o, "icon_keyboard")))
    [] Is(o, "/obj/machinery/door/airlock") -> Airlock(o, s)
    [] Is(o, "/obj/machinery/power/apc") -> <<With(s, "apcox-1"), With(s, "apco3-2"), With(s, "apco0-3"), With(s, "apco1-3"), With(s, "apco2-3")>>
    [] OTHER -> <<>>
OverlaysUnder(o, s) ==
  CASE Is(o, "/turf/closed/indestructible/fakeglass") ->
         <<[With(s, "plating") EXCEPT !.icon = "icons/turf/floors.dmi"], [With(s, "grille") EXCEPT !.icon = "icons/obj/structures.dmi"]>>
    [] Is(o, "/obj/machinery/power/apc") ->
         LET t == TypeIx("/obj/machinery/power/terminal") IN
         IF t = 0 THEN <<>> ELSE <<[Base(New(t)) EXCEPT !.dir = s.dir, !.plane = 0, !.layer = -56]>>
    [] OTHER -> <<>>
PrettyOver(o, s) ==
  CASE Is(o, "/obj/item/storage/box") /\ ~Is(o, "/obj/item/storage/box/papersack") -> If(IsStr(o, "illustration"), With(s, Str(o, "illustration")))
    [] Is(o, "/obj/machinery/firealarm") -> <<With(s, "fire_overlay"), With(s, "fire_disabled")>>
    [] Is(o, "/obj/structure/tank_dispenser") ->
         LET ox == Min2(4, Num(o, "oxygentanks", 0))
             pl == Min2(5, Num(o, "plasmatanks", 0)) IN
         If(ox > 0, With(s, "oxygen-" \o ToString(ox))) \o If(pl > 0, With(s, "plasma-" \o ToString(pl)))
    [] OTHER -> <<>>

(* Where a tube leads.                                                        *)
N == 1  S == 2  E == 4  W == 8
Exits(o) ==
  LET d == Facing(Num(o, "dir", 2))
      by(n, s, e, w) == CASE d = N -> n [] d = S -> s [] d = E -> e [] d = W -> w [] OTHER -> <<>>
      T(p) == Is(o, "/obj/structure/transit_tube/" \o p) IN
  CASE T("station/reverse") -> by(<<E>>, <<W>>, <<S>>, <<N>>)
    [] T("station") -> by(<<E, W>>, <<E, W>>, <<N, S>>, <<N, S>>)
    [] T("junction/flipped") -> by(<<N, S + W, S + E>>, <<S, N + E, N + W>>, <<E, N + W, S + W>>, <<W, S + E, N + E>>)
    [] T("junction") -> by(<<N, S + E, S + W>>, <<S, N + W, N + E>>, <<E, S + W, N + W>>, <<W, N + E, S + E>>)
    [] T("curved/flipped") -> by(<<N, S + E>>, <<S, N + W>>, <<E, S + W>>, <<N + E, W>>)
    [] T("curved") -> by(<<N, S + W>>, <<S, N + E>>, <<E, N + W>>, <<S + E, W>>)
    [] T("diagonal") -> by(<<N + E, S + W>>, <<N + E, S + W>>, <<N + W, S + E>>, <<N + W, S + E>>)
    [] OTHER -> by(<<N, S>>, <<N, S>>, <<E, W>>, <<E, W>>)
TubePart(s, d, x, y) ==
  [icon |-> s.icon, state |-> IF x = 0 /\ y = 0 THEN "decorative" ELSE "decorative_diag", dir |-> d, col |-> <<255, 255, 255, 255>>,
   ox |-> 32 * x, oy |-> 32 * y, plane |-> 0, layer |-> s.layer]
(* A diagonal which leads north also shows on the tiles it passes by. *)
Tube(s, d) ==
  CASE d \in {N, S, E, W} -> <<TubePart(s, d, 0, 0)>>
    [] d = N + E -> <<TubePart(s, S + E, 0, 1), TubePart(s, N + W, 1, 0)>>
    [] d = N + W -> <<TubePart(s, S + W, 0, 1), TubePart(s, N + E, -1, 0)>>
    [] OTHER -> <<>>
RECURSIVE Tubes(_, _)
Tubes(s, ds) == IF ds = <<>> THEN <<>> ELSE Tube(s, Head(ds)) \o Tubes(s, Tail(ds))

(* The eight parts around a gravity generator.                                *)
Gravity ==
  LET t == TypeIx("/obj/machinery/gravity_generator/part")
      b == Base(New(t))
      part(n, x, y, high) == [With(b, "on_" \o ToString(n)) EXCEPT !.ox = @ + 32 * x, !.oy = @ + 32 * y, !.plane = 0, !.layer = IF high THEN 68 ELSE @] IN
  IF t = 0 THEN <<>>
  ELSE <<part(1, 1, 2, TRUE), part(2, 0, 2, TRUE), part(3, -1, 2, TRUE), part(4, 1, 1, FALSE), part(5, 0, 1, FALSE), With(part(5, 0, 1, FALSE), "activated"),
         part(6, -1, 1, FALSE), part(7, 1, 0, FALSE), part(9, -1, 0, FALSE)>>

Overs(o, s) ==
  (IF On("pretty") THEN PrettyOver(o, s) ELSE <<>>)
  \o (IF On("overlays") THEN OverlaysOver(o, s) ELSE <<>>)
  \o (IF On("transit-tube") /\ Is(o, "/obj/structure/transit_tube") THEN Tubes(s, Exits(o)) ELSE <<>>)
  \o (IF On("gravity-gen") /\ Is(o, "/obj/machinery/gravity_generator/main") THEN Gravity ELSE <<>>)
  \o (IF On("fancy-layers") /\ Vent(o) THEN <<[With(s, VentStates[Str(o, "icon_state")]) EXCEPT !.layer = Num(o, "layer", 32)]>> ELSE <<>>)
Unders(o, s) == IF On("overlays") THEN OverlaysUnder(o, s) ELSE <<>>

------------------------------------------------------------------------------
(* Cables join their neighbours of the same layer.                            *)
Width == Len(C.rows[1])
Height == Len(C.rows)
On2(x, y) == IF x < 1 \/ y < 1 \/ x > Width \/ y > Height THEN <<>> ELSE tiles[C.rows[y][x]]
AnyOf(os, p) == \E i \in 1..Len(os) : Is(os[i], p)
CableLayer(o) == IF IsStr(o, "cable_layer") THEN Str(o, "cable_layer") ELSE "l2"
Smart(o) == On("smart-cables") /\ Is(o, "/obj/structure/cable") /\ ~Is(o, "/obj/structure/cable/multilayer")
CableState(o, x, y) ==
  LET here == On2(x, y)
      terminal == AnyOf(here, "/obj/machinery/power/terminal")
      smes == AnyOf(here, "/obj/machinery/power/smes")
      joins(os) ==
        /\ ~(smes /\ AnyOf(os, "/obj/machinery/power/terminal"))
        /\ ~(~smes /\ terminal /\ AnyOf(os, "/obj/machinery/power/smes"))
        /\ \E i \in 1..Len(os) : Is(os[i], "/obj/structure/cable") /\ CableLayer(os[i]) = CableLayer(o)
      ds == {d \in {N, S, E, W} : joins(CASE d = N -> On2(x, y - 1) [] d = S -> On2(x, y + 1) [] d = E -> On2(x + 1, y) [] OTHER -> On2(x - 1, y))}
      part(d) == IF d \in ds THEN "-" \o ToString(d) ELSE ""
      node == Cardinality(ds) > 1 /\ (AnyOf(here, "/obj/structure/grille") \/ AnyOf(here, "/obj/structure/cable_bridge") \/ AnyOf(here, "/obj/machinery/power")) IN
  CableLayer(o) \o (IF ds = {} THEN "-noconnection" ELSE part(N) \o part(S) \o part(E) \o part(W)) \o (IF node THEN "-node" ELSE "")

Own(o, s, x, y) == IF Smart(o) THEN With(s, CableState(o, x, y)) ELSE s
At(s, x, y) == [x |-> x, y |-> y] @@ s
Drawable(s) == s.icon # "" /\ (On("hide-space") => s.icon # "icons/turf/space.dmi")
(* All of an object's sprites: what is under it, itself, what is over it. *)
Looks(o, x, y) ==
  IF ~Late(o) THEN {<<>>}
  ELSE {IF s.icon = "" THEN <<>>
        ELSE LET all == Unders(o, s) \o <<Own(o, s, x, y)>> \o Overs(o, s) IN
             LET kept == SelectSeq(all, Drawable) IN [i \in 1..Len(kept) |-> At(kept[i], x, y)] : s \in Adjusted(o)}
RECURSIVE TileLooks(_, _, _)
TileLooks(os, x, y) == IF os = <<>> THEN {<<>>} ELSE {a \o b : a \in Looks(Head(os), x, y), b \in TileLooks(Tail(os), x, y)}

------------------------------------------------------------------------------
Init == cid \in 1..Len(Cases) /\ status = "passes" /\ at = 1 /\ passes = {} /\ tiles = <<>> /\ sprites = <<>>

Settle ==
  /\ status = "passes" /\ at <= Len(All)
  /\ passes' = IF Runs(All[at]) THEN passes \cup {All[at].n} ELSE passes
  /\ at' = at + 1 /\ UNCHANGED <<cid, status, tiles, sprites>>
Settled == status = "passes" /\ at = Len(All) + 1 /\ status' = "expand" /\ at' = 1 /\ UNCHANGED <<cid, passes, tiles, sprites>>

Expand ==
  /\ status = "expand" /\ at <= Len(C.keys)
  /\ \E t \in Tiles(C.keys[at]) : tiles' = Append(tiles, t)
  /\ at' = at + 1 /\ UNCHANGED <<cid, status, passes, sprites>>
Done == status = "expand" /\ at = Len(C.keys) + 1 /\ status' = "draw" /\ at' = 0 /\ UNCHANGED <<cid, passes, tiles, sprites>>

(* The rectangle counts tiles from 0 at the bottom left. *)
Inside(x, y) == x - 1 >= C.min[1] /\ x - 1 <= C.max[1] /\ Height - y >= C.min[2] /\ Height - y <= C.max[2]
Draw ==
  /\ status = "draw" /\ at < Width * Height
  /\ LET x == 1 + (at % Width)
         y == 1 + (at \div Width) IN
     IF Inside(x, y) THEN \E l \in TileLooks(On2(x, y), x, y) : sprites' = sprites \o l ELSE UNCHANGED sprites
  /\ at' = at + 1 /\ UNCHANGED <<cid, status, passes, tiles>>

Below(a, b) == a.plane < b.plane \/ (a.plane = b.plane /\ a.layer < b.layer)
RECURSIVE InsertSprite(_, _)
InsertSprite(s, x) == IF s = <<>> \/ ~Below(x, Last(s)) THEN Append(s, x) ELSE Append(InsertSprite(Front(s), x), Last(s))
Sort ==
  /\ status = "draw" /\ at = Width * Height
  /\ sprites' = FoldSeqL(InsertSprite, <<>>, sprites) /\ status' = "report"
  /\ UNCHANGED <<cid, at, passes, tiles>>

Report ==
  /\ status = "report"
  /\ Emit([cid |-> cid, passes |-> passes, sprites |-> sprites])
  /\ status' = "done" /\ UNCHANGED <<cid, at, passes, tiles, sprites>>

Next == Settle \/ Settled \/ Expand \/ Done \/ Draw \/ Sort \/ Report
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(* Hidden things stay hidden whatever expands into them, and an object is    *)
(* never drawn twice by itself.                                               *)
Inv ==
  /\ status \in {"draw", "report"} /\ On("only-powernet") /\ On("only-pipenet") => sprites = <<>>
  /\ status = "report" => \A i, j \in 1..Len(sprites) : i < j => ~Below(sprites[j], sprites[i])
  /\ status # "passes" => (\A i \in 1..Len(C.include) : C.include[i] # "all" => C.include[i] \in passes \/ \A j \in 1..Len(All) : All[j].n # C.include[i])
Terminates == <>(status = "done")
===============================================================================
