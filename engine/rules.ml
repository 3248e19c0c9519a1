(* Structural rules about the __try/__catch/__throw machinery, decided on the control-flow graph of every
   function (rule mode: the environment variable VRULES names the output file).  See DESIGN.md, C24.

   BAL  no path returns from a function while g_pExceptionHandlers may still hold the address of one of the
        function's own handlers (forward may-analysis over symbolic pointer values).
   VOL  a non-volatile automatic variable which is modified between setjmp and a point that may raise, and is
        read (before being assigned) after setjmp's second return, has an indeterminate value (C11 7.13.2.1p3). *)
open Cil_types
module VS = Set.Make (struct type t = int let compare = compare end)

type sym = Entry | Addr of int | Unknown
module SS = Set.Make (struct type t = sym let compare = compare end)
(* tracked places: a variable, or a field of a variable *)
module PM = Map.Make (struct type t = int * string let compare = compare end)

let out = ref stdout
let n_funcs = ref 0 and n_returns = ref 0 and n_installs = ref 0 and n_setjmps = ref 0 and n_vars = ref 0 and n_unres = ref 0

let place = function
  | Var v, NoOffset -> Some (v.vid, "")
  | Var v, Field (fi, NoOffset) -> Some (v.vid, fi.fname)
  | _ -> None

let rec strip e = match e.enode with CastE (_, e) -> strip e | _ -> e

let is_noreturn fe = match fe.enode with
  | Lval (Var v, NoOffset) ->
    List.mem v.vname [ "longjmp"; "_longjmp"; "exit"; "_exit"; "abort"; "__builtin_trap"; "__builtin_unreachable" ]
    || Cil.hasAttribute "noreturn" v.vattr
  | _ -> false
let is_setjmp v = List.mem v.vname [ "setjmp"; "_setjmp"; "__sigsetjmp"; "sigsetjmp" ]

let pos (s : stmt) = let (p, _) = Cil_datatype.Stmt.loc s in ((p.Filepath.pos_path :> string), p.Filepath.pos_lnum)

let report rule (f : fundec) s msg =
  let file, line = pos s in
  Printf.fprintf !out "PROBLEM\t%s\t%s\t%d\t%s\t%s\n" rule file line f.svar.vname msg

let handlers_global = ref (-1)
let gplace () = (!handlers_global, "")

let value st p = try PM.find p st with Not_found -> if p = gplace () then SS.singleton Entry else SS.singleton Unknown
let eval st e = match (strip e).enode with
  | AddrOf (Var v, NoOffset) -> SS.singleton (Addr v.vid)
  | Lval lv -> (match place lv with Some p -> value st p | None -> SS.singleton Unknown)
  | _ -> SS.singleton Unknown

let mentions_addr e =
  let r = ref false in
  let v = object
    inherit Cil.nopCilVisitor
    method! vexpr e = (match e.enode with
        | AddrOf (Var v, _) when (match Cil.unrollType v.vtype with TComp (ci, _) -> ci.cname = "ExceptionHandler" | _ -> false) -> r := true
        | _ -> ()); Cil.DoChildren
  end in
  ignore (Cil.visitCilExpr v e); !r

(* None: unreachable *)
let transfer st s = match s.skind with
  | Instr (Set (lv, e, _)) -> (match place lv with Some p -> Some (PM.add p (eval st e) st) | None -> Some st)
  | Instr (Local_init (v, AssignInit (SingleInit e), _)) -> Some (PM.add (v.vid, "") (eval st e) st)
  | Instr (Local_init (v, AssignInit (CompoundInit (_, l)), _)) ->
    Some (List.fold_left (fun st (o, i) -> match o, i with
        | Field (fi, NoOffset), SingleInit e -> PM.add (v.vid, fi.fname) (eval st e) st
        | _ -> st) st l)
  | Instr (Call (_, fe, _, _)) when is_noreturn fe -> None
  | Instr (Call (_, _, args, _)) when List.exists mentions_addr args ->
    Some (PM.map (fun _ -> SS.singleton Unknown) st |> PM.add (gplace ()) (SS.singleton Unknown))
  | _ -> Some st

let join a b = PM.merge (fun p x y ->
    let d = if p = gplace () then SS.singleton Entry else SS.singleton Unknown in
    let x = (match x with Some x -> x | None -> d) and y = (match y with Some y -> y | None -> d) in
    Some (SS.union x y)) a b

let forward (f : fundec) =
  let before = Hashtbl.create 97 in
  let todo = Queue.create () in
  let push s st =
    let nst, changed = match Hashtbl.find_opt before s.sid with
      | None -> st, true
      | Some o -> let j = join o st in j, not (PM.equal SS.equal j o) in
    if changed then (Hashtbl.replace before s.sid nst; Queue.add s todo) in
  (match f.sbody.bstmts with [] -> () | _ -> push (List.hd f.sallstmts) PM.empty;
    (match f.sbody.bstmts with s :: _ -> push s PM.empty | [] -> ()));
  while not (Queue.is_empty todo) do
    let s = Queue.pop todo in
    match transfer (Hashtbl.find before s.sid) s with
    | None -> ()
    | Some st -> List.iter (fun s' -> push s' st) s.succs
  done;
  before

let is_local (f : fundec) vid = List.exists (fun v -> v.vid = vid) f.slocals || List.exists (fun v -> v.vid = vid) f.sformals

let balance f before =
  let bad = function Addr v -> is_local f v | _ -> false in
  List.iter (fun s ->
      match Hashtbl.find_opt before s.sid with
      | None -> ()
      | Some st ->
        (match s.skind with
         | Instr (Set (lv, e, _)) when place lv = Some (gplace ()) && SS.exists bad (eval st e) -> incr n_installs
         | Return _ ->
           incr n_returns;
           if SS.exists bad (value st (gplace ())) then begin
             (* name the statements that leave the protected block: predecessors with the handler still installed *)
             let named = ref false in
             let rec leaves seen p =
               if not (VS.mem p.sid seen) then
                 match Hashtbl.find_opt before p.sid with
                 | Some st' when (match transfer st' p with Some st'' -> SS.exists bad (value st'' (gplace ())) | None -> false) ->
                   (match p.skind with
                    | Goto _ | Break _ | Continue _ | Instr (Set _) | Instr (Call _) ->
                      if not !named then (named := true; report "BAL" f p "leaves a protected block through this statement: its handler stays installed after the function returns")
                    | _ -> List.iter (leaves (VS.add p.sid seen)) p.preds)
                 | _ -> () in
             List.iter (leaves VS.empty) s.preds;
             if not !named then report "BAL" f s "may return with its own exception handler still installed"
           end
         | _ -> ())) f.sallstmts

(* ---- VOL ---- *)
let reads_of_exp e =
  let r = ref VS.empty in
  let v = object
    inherit Cil.nopCilVisitor
    method! vexpr e = (match e.enode with SizeOfE _ | AlignOfE _ -> Cil.SkipChildren | _ -> Cil.DoChildren)
    method! vlval (h, _) = (match h with Var v -> r := VS.add v.vid !r | Mem _ -> ()); Cil.DoChildren
  end in
  ignore (Cil.visitCilExpr v e); !r
let reads_of_lhs = function
  | Var v, NoOffset -> ignore v; VS.empty
  | lv -> let r = ref VS.empty in
    let v = object
      inherit Cil.nopCilVisitor
      method! vlval (h, _) = (match h with Var v -> r := VS.add v.vid !r | Mem _ -> ()); Cil.DoChildren
    end in
    ignore (Cil.visitCilLval v lv);
    (* storing to a field of v is no read of v *)
    (match lv with Var v, _ -> VS.remove v.vid !r | _ -> !r)
let rec reads_init = function SingleInit e -> reads_of_exp e | CompoundInit (_, l) -> List.fold_left (fun a (_, i) -> VS.union a (reads_init i)) VS.empty l
let unions = List.fold_left VS.union VS.empty
let uses s = match s.skind with
  | Instr (Set (lv, e, _)) -> VS.union (reads_of_lhs lv) (reads_of_exp e)
  | Instr (Call (lv, fe, args, _)) -> unions ((match lv with Some lv -> reads_of_lhs lv | None -> VS.empty) :: reads_of_exp fe :: List.map reads_of_exp args)
  | Instr (Local_init (_, AssignInit i, _)) -> reads_init i
  | Instr (Local_init (_, ConsInit (_, args, _), _)) -> unions (List.map reads_of_exp args)
  | Return (Some e, _) | If (e, _, _, _) | Switch (e, _, _, _) -> reads_of_exp e
  | _ -> VS.empty
let kills s = match s.skind with   (* whole-variable definitions *)
  | Instr (Set ((Var v, NoOffset), _, _)) | Instr (Call (Some (Var v, NoOffset), _, _, _)) | Instr (Local_init (v, _, _)) -> VS.singleton v.vid
  | _ -> VS.empty
let mods s = match s.skind with
  | Instr (Set ((Var v, _), _, _)) | Instr (Call (Some (Var v, _), _, _, _)) | Instr (Local_init (v, _, _)) -> Some v
  | _ -> None
let may_raise s = match s.skind with
  | Instr (Call _) | Instr (Local_init (_, ConsInit _, _)) -> true
  | _ -> false

let liveness (f : fundec) =
  let live_in = Hashtbl.create 97 in
  let get s = try Hashtbl.find live_in s.sid with Not_found -> VS.empty in
  let changed = ref true in
  while !changed do
    changed := false;
    List.iter (fun s ->
        let o = unions (List.map get s.succs) in
        let i = VS.union (uses s) (VS.diff o (kills s)) in
        if not (VS.equal i (get s)) then (changed := true; Hashtbl.replace live_in s.sid i)) (List.rev f.sallstmts)
  done;
  get

(* value of the branch condition when setjmp's result variable is 1 *)
let rec ceval vid e = match e.enode with
  | Const (CInt64 _) -> int_of_string_opt (Format.asprintf "%a" Printer.pp_exp e)
  | CastE (_, e) -> ceval vid e
  | Lval (Var v, NoOffset) when v.vid = vid -> Some 1
  | UnOp (LNot, e, _) -> Option.map (fun x -> if x = 0 then 1 else 0) (ceval vid e)
  | BinOp (op, a, b, _) ->
    (match ceval vid a, ceval vid b with
     | Some a, Some b ->
       let t c = Some (if c then 1 else 0) in
       (match op with Eq -> t (a = b) | Ne -> t (a <> b) | Gt -> t (a > b) | Lt -> t (a < b) | Ge -> t (a >= b) | Le -> t (a <= b) | _ -> None)
     | _ -> None)
  | _ -> None

let code_global = ref (-1)
(* what may be read from 'resume' on, given that an exception is pending (its code is not zero) *)
let live_at_resume live resume ~first ~after =
  let rec go n s =
    if n = 0 then live s else
      match s.skind, s.succs with
      | If (e, bt, be, _), _ ->
        (match ceval !code_global e with
         | Some c ->
           let b = if c <> 0 then bt else be in
           (match (match first b with Some x -> Some x | None -> after s bt be) with
            | Some x -> VS.union (uses s) (go (n - 1) x)
            | None -> live s)
         | None -> live s)
      | Instr (Set ((Var v, _), _, _)), _ when v.vid = !code_global -> live s
      | Instr (Call _), _ | Instr (Local_init (_, ConsInit _, _)), _ -> live s
      | Return _, _ -> live s
      | _, [ x ] -> VS.union (uses s) (VS.diff (go (n - 1) x) (kills s))
      | _ -> live s in
  go 30 resume

let volatile_rule (f : fundec) before =
  let live = liveness f in
  let locals = f.slocals @ f.sformals in
  (* first statement executed in a block; blocks may be nested and empty *)
  let rec first b = match b.bstmts with
    | { skind = Block b' } :: tl -> (match first b' with Some x -> Some x | None -> first { b with bstmts = tl })
    | x :: _ -> Some x
    | [] -> None in
  let after s bt be = (* the branch with no statements continues with the other successor *)
    let eq x o = match o with Some (y : stmt) -> y.sid = x.sid | None -> false in
    let raw b = match b.bstmts with x :: _ -> Some x | [] -> None in
    List.find_opt (fun (x : stmt) -> not (eq x (first bt) || eq x (first be) || eq x (raw bt) || eq x (raw be))) s.succs in
  List.iter (fun s ->
      let res = match s.skind with
        | Instr (Call (Some (Var r, NoOffset), { enode = Lval (Var v, NoOffset) }, _, _)) when is_setjmp v -> Some r
        | Instr (Local_init (r, ConsInit (v, _, _), _)) when is_setjmp v -> Some r
        | _ -> None in
      match res, Hashtbl.find_opt before s.sid with
      | Some r, Some st ->
        incr n_setjmps;
        (* the branch on the result *)
        let rec find n s = if n = 0 then None else match s.skind, s.succs with
            | If (e, bt, be, _), _ ->
              let after () = after s bt be in
              (match ceval r.vid e with
               | Some 0 -> (match first be with Some x -> Some x | None -> after ())
               | Some _ -> (match first bt with Some x -> Some x | None -> after ())
               | None -> None)
            | _, [ x ] -> find (n - 1) x
            | _ -> None in
        (match s.succs with
         | [ x ] ->
           (match find 8 x with
            | None -> incr n_unres
            | Some resume ->
              let l = live_at_resume live resume ~first ~after in
              let handler = value st (gplace ()) in
              (* the protected region: until the handler list no longer has this handler, i.e. is restored from it *)
              let prior = List.fold_left (fun acc h -> match h with
                  | Addr h -> PM.fold (fun (v, _) x acc -> if v = h then SS.union x acc else acc) st acc
                  | _ -> acc) SS.empty (SS.elements handler) in
              let prior = SS.remove Unknown prior in
              let region = Hashtbl.create 97 in
              let rec walk s =
                if not (Hashtbl.mem region s.sid) && s.sid <> resume.sid then begin
                  match Hashtbl.find_opt before s.sid with
                  | None -> ()
                  | Some st ->
                    Hashtbl.add region s.sid s;
                    (match transfer st s with
                     | None -> ()
                     | Some st' ->
                       let restored = (match s.skind with
                           | Instr (Set (lv, _, _)) when place lv = Some (gplace ()) ->
                             not (SS.is_empty (SS.inter (value st' (gplace ())) prior))
                           | _ -> false) in
                       if not restored then List.iter walk s.succs)
                end in
              List.iter walk x.succs; walk x;
              let in_region x = Hashtbl.mem region x.sid in
              Hashtbl.iter (fun _ m ->
                  match mods m with
                  | Some v when VS.mem v.vid l && List.exists (fun x -> x.vid = v.vid) locals
                                && not (Cil.typeHasAttribute "volatile" v.vtype) && not v.vaddrof && v.vid <> r.vid
                                && (match Cil.unrollType v.vtype with TArray _ -> false | _ -> true) ->
                    incr n_vars;
                    (* something after the assignment, inside the region, may raise *)
                    let seen = Hashtbl.create 17 in
                    let rec raises x =
                      in_region x && not (Hashtbl.mem seen x.sid)
                      && (Hashtbl.add seen x.sid (); may_raise x || List.exists raises x.succs) in
                    if List.exists raises m.succs then
                      report "VOL" f m (Printf.sprintf "'%s' is modified inside a protected block and read after an exception, but is not volatile: its value is indeterminate there" v.vname)
                  | Some _ -> incr n_vars
                  | None -> ()) region)
         | _ -> incr n_unres)
      | _ -> ()) f.sallstmts

let run () =
  match Sys.getenv_opt "VRULES" with
  | None -> ()
  | Some path ->
    Ast.compute ();
    let file = Ast.get () in
    out := open_out path;
    handlers_global := (try (Globals.Vars.find_from_astinfo "g_pExceptionHandlers" VGlobal).vid with Not_found -> Kernel.abort "rules: g_pExceptionHandlers missing");
    code_global := (try (Globals.Vars.find_from_astinfo "g_exceptionCode" VGlobal).vid with Not_found -> -1);
    List.iter (function
        | GFun (f, _) ->
          incr n_funcs;
          let before = forward f in
          balance f before;
          volatile_rule f before
        | _ -> ()) file.globals;
    Printf.fprintf !out "SUMMARY\tfunctions=%d returns=%d installs=%d setjmps=%d modifications=%d unresolved=%d\n" !n_funcs !n_returns !n_installs !n_setjmps !n_vars !n_unres;
    close_out !out

let () = Db.Main.extend run
