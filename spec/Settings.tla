------------------------------ MODULE Settings ------------------------------
(* What is said about set statements, filters, searches in lists and values    *)
(* returned from spawned code.  A case is a sequence of procs; a body is a     *)
(* sequence of items in text order, blocks being an opening item, what they    *)
(* hold and a closing one.  The machine reads body after body as a reader      *)
(* would, knowing which blocks it is in and whether anything but settings came *)
(* before.                                                                     *)
EXTENDS VCommon

VARIABLES cid, status, at, stack, top, said
vars == <<cid, status, at, stack, top, said>>

Case == Cases[cid]
Bodies == Case.procs
Item == Bodies[at[1]].items[at[2]]

------------------------------------------------------------------------------
(* set statements *)
Switches == {"background", "waitfor", "hidden", "instant", "popup_menu"}
Texts == {"name", "desc", "category"}
Known == Switches \cup Texts \cup {"src", "invisibility"}
Linter == {"SpacemanDMM_should_not_override", "SpacemanDMM_should_call_parent", "SpacemanDMM_should_not_call_parent", "SpacemanDMM_private_proc", "SpacemanDMM_protected_proc",
           "SpacemanDMM_should_not_sleep", "SpacemanDMM_allowed_to_sleep", "SpacemanDMM_should_be_pure", "SpacemanDMM_can_be_redefined", "SpacemanDMM_return_type"}

(* TRUE and FALSE are 1 and 0 *)
IsSwitch(v) == v.c = "int" /\ v.n \in {0, 1}
SetAtTop(s) ==
  IF s.lint THEN (IF s.name \in Linter THEN {} ELSE {<<"linter", s.name>>})
  ELSE IF s.name \notin Known THEN {<<"unknown", s.name>>}
  ELSE IF s.name \in Switches THEN (IF IsSwitch(s.val) THEN {} ELSE {<<"switch", s.name>>})
  ELSE IF s.name \in Texts THEN
    (* what only a computation tells is left alone *)
    (IF s.val.c \in {"str", "expr"} \/ (s.val.c = "null" /\ s.name = "category") THEN {} ELSE {<<"text", s.name>>})
  ELSE IF s.name = "invisibility" THEN (IF s.val.c = "int" /\ s.val.n \in 0..100 THEN {} ELSE {<<"range", s.name>>})
  ELSE {}
SetLater(s) == IF s.lint THEN {<<"late", s.name>>} ELSE {}

------------------------------------------------------------------------------
(* filters *)
Fields == [alpha |-> {"x", "y", "icon", "render_source", "flags"},
           angular_blur |-> {"x", "y", "size"},
           bloom |-> {"threshold", "size", "offset", "alpha"},
           color |-> {"color", "space"},
           displace |-> {"x", "y", "size", "icon", "render_source", "flags"},
           drop_shadow |-> {"x", "y", "size", "offset", "color"},
           blur |-> {"size"},
           layer |-> {"x", "y", "icon", "render_source", "flags", "color", "transform", "blend_mode"},
           motion_blur |-> {"x", "y"},
           outline |-> {"size", "color", "flags"},
           radial_blur |-> {"x", "y", "size"},
           rays |-> {"x", "y", "size", "color", "offset", "density", "threshold", "factor", "flags"},
           ripple |-> {"x", "y", "size", "repeat", "radius", "falloff", "flags"},
           wave |-> {"x", "y", "size", "offset", "flags"}]
(* the field which holds flags, whether it takes one at most, whether none     *)
Flags == [alpha |-> [field |-> "flags", one |-> FALSE, zero |-> TRUE, names |-> {"MASK_INVERSE", "MASK_SWAP"}],
          color |-> [field |-> "space", one |-> TRUE, zero |-> FALSE, names |-> {"FILTER_COLOR_RGB", "FILTER_COLOR_HSV", "FILTER_COLOR_HSL", "FILTER_COLOR_HCY"}],
          displace |-> [field |-> "flags", one |-> FALSE, zero |-> TRUE, names |-> {"FILTER_OVERLAY"}],
          layer |-> [field |-> "flags", one |-> TRUE, zero |-> TRUE, names |-> {"FILTER_OVERLAY", "FILTER_UNDERLAY"}],
          rays |-> [field |-> "flags", one |-> FALSE, zero |-> TRUE, names |-> {"FILTER_OVERLAY", "FILTER_UNDERLAY"}],
          outline |-> [field |-> "flags", one |-> FALSE, zero |-> TRUE, names |-> {"OUTLINE_SHARP", "OUTLINE_SQUARE"}],
          ripple |-> [field |-> "flags", one |-> FALSE, zero |-> TRUE, names |-> {"WAVE_BOUNDED"}],
          wave |-> [field |-> "flags", one |-> FALSE, zero |-> TRUE, names |-> {"WAVE_SIDEWAYS", "WAVE_BOUNDED"}]]

RECURSIVE FlagWrong(_, _)
FlagWrong(ty, e) ==
  LET f == Flags[ty] IN
  CASE e.o = "or" -> IF f.one THEN {<<"several", ty, f.field>>} ELSE FlagWrong(ty, e.l) \cup FlagWrong(ty, e.r)
    [] e.o = "name" -> IF e.n \in f.names THEN {} ELSE {<<"flag", ty, f.field, e.n>>}
    [] e.o = "int" -> IF e.i = 0 /\ f.zero THEN {} ELSE {<<"value", ty, f.field>>}
    [] e.o = "literal" -> {<<"value", ty, f.field>>}
    [] e.o = "access" -> {<<"access">>}
    [] OTHER -> {<<"extreme", ty, f.field>>}

Keyed(args, n) == {i \in DOMAIN args : args[i].n = n}
Spread(args) == Len(args) > 0 /\ args[1].n = "" /\ args[1].v.o = "arglist"
(* a value without a name after one with *)
Order(args) == IF \E i \in DOMAIN args : \E j \in 1..(i - 1) : args[i].n = "" /\ args[j].n # "" THEN {<<"order">>} ELSE {}
Filter(args) ==
  Order(args) \cup LET types == Keyed(args, "type") IN
  IF types = {} THEN (IF Spread(args) THEN {} ELSE {<<"notype">>})
  ELSE LET t == args[CHOOSE i \in types : TRUE].v IN
    IF t.o # "text" THEN {<<"nottext">>}
    ELSE IF t.s \notin DOMAIN Fields THEN {<<"badtype", t.s>>}
    ELSE {<<"key", t.s, args[i].n>> : i \in {j \in DOMAIN args : args[j].n \notin Fields[t.s] \cup {"", "type", "name"}}}
         \cup (IF t.s \notin DOMAIN Flags THEN {}
               ELSE UNION {FlagWrong(t.s, args[i].v) : i \in Keyed(args, Flags[t.s].field)})

------------------------------------------------------------------------------
Spawned == Has(stack, "spawn")
Found ==
  CASE Item.k = "set" -> IF top THEN SetAtTop(Item) ELSE SetLater(Item)
    [] Item.k = "return" -> IF Item.v /\ Spawned THEN {<<"return">>} ELSE {}
    [] Item.k = "filter" -> IF Item.own THEN Order(Item.args) ELSE Filter(Item.args)
    [] Item.k = "find" -> IF Item.list /\ Item.n = 0 THEN {<<"find">>} ELSE {}
    [] OTHER -> {}

Init == cid \in 1..Len(Cases) /\ status = "read" /\ at = <<1, 1>> /\ stack = <<>> /\ top = TRUE /\ said = {}

Read ==
  /\ status = "read" /\ at[1] <= Len(Bodies) /\ at[2] <= Len(Bodies[at[1]].items)
  /\ stack' = CASE Item.k = "open" -> Append(stack, Item.b)
                [] Item.k = "close" -> Front(stack)
                [] OTHER -> stack
  /\ top' = (top /\ Item.k = "set")
  /\ said' = said \cup {<<at[1], at[2], f>> : f \in Found}
  /\ at' = <<at[1], at[2] + 1>> /\ UNCHANGED <<cid, status>>
NextBody ==
  /\ status = "read" /\ at[1] <= Len(Bodies) /\ at[2] > Len(Bodies[at[1]].items)
  /\ at' = <<at[1] + 1, 1>> /\ stack' = <<>> /\ top' = TRUE /\ UNCHANGED <<cid, status, said>>
Finish ==
  /\ status = "read" /\ at[1] > Len(Bodies)
  /\ Emit([cid |-> cid, said |-> said])
  /\ status' = "done" /\ UNCHANGED <<cid, at, stack, top, said>>
Done == status = "done" /\ UNCHANGED vars
Next == Read \/ NextBody \/ Finish \/ Done
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(* Blocks close where they open; a flag field is one the filter has, a filter  *)
(* of a kind has no complaint about its own fields; what is said is about      *)
(* something that was read.                                                    *)
Inv ==
  /\ top => stack = <<>>
  /\ (status = "read" /\ at[1] <= Len(Bodies) /\ at[2] > Len(Bodies[at[1]].items)) => stack = <<>>
  /\ \A t \in DOMAIN Flags : t \in DOMAIN Fields /\ Flags[t].field \in Fields[t] /\ Flags[t].names # {}
  /\ \A t \in DOMAIN Fields : Filter(<<[n |-> "type", v |-> [o |-> "text", s |-> t]]>>) = {}
  /\ \A s \in said : s[1] <= at[1] /\ (s[1] = at[1] => s[2] < at[2])
Terminates == <>(status = "done")
=============================================================================
