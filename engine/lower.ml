(* setjmp/longjmp lowering: turns the non-local control flow used by the repository's
   __try/__catch/__throw macros into explicit gotos, so that the abstract interpreter sees it.
   See DESIGN.md, "Engine". *)
open Cil_types

let category = File.register_code_transformation_category "lower-longjmp"

type handler = { buf : exp; (* void* address of the jmp_buf *)
                 lab : stmt; (* statement that follows the setjmp *)
                 res : lval option (* where setjmp's result goes *) }

let find_global name =
  try Globals.Vars.find_from_astinfo name VGlobal
  with Not_found -> Kernel.abort "lower: model global %s missing" name

let lval_of_vi vi = (Var vi, NoOffset)
let exp_of_vi vi = Cil.evar vi

let callee_name e = match e.enode with
  | Lval (Var vi, NoOffset) -> Some vi.vname
  | _ -> None

let is_defined vi =
  try Kernel_function.is_definition (Globals.Functions.get vi) with Not_found -> false

let may_throw e = match e.enode with
  | Lval (Var vi, NoOffset) -> is_defined vi
  | _ -> true

let label_count = ref 0
let n_setjmp = ref 0 and n_longjmp = ref 0 and n_calls = ref 0 and n_funcs = ref 0

let mklabel prefix s loc =
  incr label_count;
  s.labels <- Label (Printf.sprintf "%s_%d" prefix !label_count, loc, false) :: s.labels

let voidp e = Cil.mkCast ~force:true ~newt:Cil.voidPtrType e

let lower_fun active target value (f : fundec) =
  let ret_stmt = ref None in
  let find_ret = object
    inherit Cil.nopCilVisitor
    method! vstmt s = (match s.skind with Return _ -> ret_stmt := Some s | _ -> ()); Cil.DoChildren
    method! vinst _ = Cil.SkipChildren
  end in
  ignore (Cil.visitCilFunction find_ret f);
  let ret = match !ret_stmt with Some s -> s
    | None -> Kernel.abort "lower: no return in %s" f.svar.vname in
  let ret_labelled = ref false in
  let mk k = Cil.mkStmt ~valid_sid:true k in
  let goto_ret loc =
    if not !ret_labelled then (ret_labelled := true; mklabel "lj_unwind" ret loc);
    let pre = match ret.skind with
      | Return (Some { enode = Lval (Var vi, NoOffset) }, _) when not vi.vformal ->
        (match Cil.unrollType vi.vtype with
         | TInt _ | TEnum _ | TPtr _ | TFloat _ when not vi.vglob ->
           [ mk (Instr (Set (lval_of_vi vi, Cil.mkCast ~force:true ~newt:vi.vtype (Cil.zero ~loc), loc))) ]
         | _ -> [])
      | _ -> [] in
    pre @ [ mk (Goto (ref ret, loc)) ] in
  let dispatch scope loc =
    let rec go = function
      | [] -> goto_ret loc
      | h :: tl ->
        let resume =
          (match h.res with
           | Some lv -> [ mk (Instr (Set (lv, Cil.mkCast ~force:true ~newt:(Cil.typeOfLval lv) (exp_of_vi value), loc))) ]
           | None -> [])
          @ [ mk (Instr (Set (lval_of_vi active, Cil.zero ~loc, loc)));
              mk (Goto (ref h.lab, loc)) ] in
        let cond = Cil.mkBinOp ~loc Eq (exp_of_vi target) h.buf in
        [ mk (If (cond, Cil.mkBlock resume, Cil.mkBlock (go tl), loc)) ] in
    go scope in
  let check scope loc =
    [ mk (If (Cil.mkBinOp ~loc Ne (exp_of_vi active) (Cil.zero ~loc),
              Cil.mkBlock (dispatch scope loc), Cil.mkBlock [], loc)) ] in
  let used = ref false in
  let rec block scope b =
    let scope = ref scope in
    b.bstmts <- List.concat_map (fun s -> stmt scope s) b.bstmts
  and sub scope b = block !scope b
  and stmt scope s =
    match s.skind with
    | Instr (Call (lv, fe, args, loc)) -> call scope s lv fe args loc
    | Instr (Local_init (v, ConsInit (fv, args, Plain_func), loc)) ->
      let fe = Cil.evar ~loc fv in
      (match fv.vname with
       | "setjmp" | "_setjmp" ->
         (* int tmp = setjmp(jb) *)
         s.skind <- Instr (Local_init (v, AssignInit (SingleInit (Cil.zero ~loc)), loc));
         let lab = mk (Instr (Skip loc)) in
         mklabel "lj_resume" lab loc;
         incr n_setjmp; used := true;
         scope := { buf = voidp (List.hd args); lab; res = Some (lval_of_vi v) } :: !scope;
         [ s; lab ]
       | _ when may_throw fe ->
         incr n_calls; used := true;
         let tmp = Cil.makeLocalVar f ~temp:true "lj_tmp" (Cil.typeRemoveAttributes ["const"] v.vtype) in
         s.skind <- Instr (Call (Some (lval_of_vi tmp), fe, args, loc));
         (s :: check !scope loc)
         @ [ mk (Instr (Local_init (v, AssignInit (SingleInit (exp_of_vi tmp)), loc))) ]
       | _ -> [ s ])
    | If (_, a, b, _) -> sub scope a; sub scope b; [ s ]
    | Switch (_, b, _, _) | Loop (_, b, _, _, _) | Block b -> sub scope b; [ s ]
    | UnspecifiedSequence seq ->
      let b = Cil.block_from_unspecified_sequence seq in
      s.skind <- Block b; 
      (* same scope: its locals are those of the enclosing block *)
      let sc = ref !scope in
      b.bstmts <- List.concat_map (fun s -> stmt sc s) b.bstmts;
      scope := !sc; [ s ]
    | _ -> [ s ]
  and call scope s lv fe args loc =
    match callee_name fe with
    | Some ("setjmp" | "_setjmp") ->
      s.skind <- (match lv with
          | Some lv -> Instr (Set (lv, Cil.zero ~loc, loc))
          | None -> Instr (Skip loc));
      let lab = mk (Instr (Skip loc)) in
      mklabel "lj_resume" lab loc;
      incr n_setjmp; used := true;
      scope := { buf = voidp (List.hd args); lab; res = lv } :: !scope;
      [ s; lab ]
    | Some ("longjmp" | "_longjmp") ->
      incr n_longjmp; used := true;
      let b, v = match args with [ b; v ] -> b, v | _ -> Kernel.abort "lower: longjmp arity" in
      s.skind <- Instr (Set (lval_of_vi target, voidp b, loc));
      s :: mk (Instr (Set (lval_of_vi value, v, loc)))
      :: mk (If (Cil.mkBinOp ~loc Eq (exp_of_vi value) (Cil.zero ~loc),
                 Cil.mkBlock [ mk (Instr (Set (lval_of_vi value, Cil.one ~loc, loc))) ], Cil.mkBlock [], loc))
      :: mk (Instr (Set (lval_of_vi active, Cil.one ~loc, loc)))
      :: dispatch !scope loc
    | _ when may_throw fe ->
      incr n_calls; used := true;
      (match lv with
       | None -> s :: check !scope loc
       | Some l ->
         let ty = Cil.typeRemoveAttributes ["const"; "volatile"] (Cil.typeOfLval l) in
         let tmp = Cil.makeLocalVar f ~temp:true "lj_tmp" ty in
         s.skind <- Instr (Call (Some (lval_of_vi tmp), fe, args, loc));
         (s :: check !scope loc) @ [ mk (Instr (Set (l, exp_of_vi tmp, loc))) ])
    | _ -> [ s ]
  in
  block [] f.sbody;
  if !used then (incr n_funcs; File.must_recompute_cfg f)

(* Eva reads volatile objects as arbitrary values.  The repository's volatile locals are plain
   memory (they only constrain register allocation across setjmp), so the qualifier is dropped;
   whether it is present where the C standard requires it is decided separately (rule VOL). *)
let strip_volatile = object
  inherit Cil.genericCilVisitor (Visitor_behavior.inplace ())
  method! vattr = function
    | Attr ("volatile", _) -> Cil.ChangeTo []
    | _ -> Cil.DoChildren
end

(* Optional (LOWER_RETSPLIT): record the offset of every returned pointer in a global, on which the
   analysis then partitions; keeps apart the states in which a scanning helper returns different positions. *)
let retsplit_fun off offset_fn (f : fundec) =
  let v = object
    inherit Cil.nopCilVisitor
    method! vinst _ = Cil.SkipChildren
    method! vstmt s = match s.skind with
      | Return (Some e, loc) when Cil.isPointerType (Cil.typeOf e) ->
        let call = Cil.mkStmt ~valid_sid:true (Instr (Call (Some (lval_of_vi off), exp_of_vi offset_fn, [ voidp e ], loc))) in
        let ret = Cil.mkStmt ~valid_sid:true s.skind in
        s.skind <- Block (Cil.mkBlock [ call; ret ]);
        Cil.SkipChildren
      | _ -> Cil.DoChildren
  end in
  ignore (Cil.visitCilFunction (v :> Cil.cilVisitor) f);
  File.must_recompute_cfg f

(* Optional (LOWER_NARROW, the rule "no lossy conversion to 8 or 16 bits"): taking a value to pieces is no loss.  A
   conversion to 8 or 16 bits is masked, and so never reported, when its result is stored in memory through a pointer or
   array element (data, not an address, size or count; an element computed from itself is a count), when its operand is
   shifted right by a multiple of 8 in the same function (the other pieces are taken as well), or when it is a conversion
   to plain char (a character). *)
let vars_of e =
  let r = ref [] in
  let v = object
    inherit Cil.nopCilVisitor
    method! vvrbl v = r := v.vid :: !r; Cil.SkipChildren
  end in
  ignore (Cil.visitCilExpr (v :> Cil.cilVisitor) e); !r

let mentions_lval lv e =
  let r = ref false in
  let v = object
    inherit Cil.nopCilVisitor
    method! vlval l = if Cil_datatype.LvalStructEq.equal l lv then r := true; Cil.DoChildren
  end in
  ignore (Cil.visitCilExpr (v :> Cil.cilVisitor) e); !r

let signed t = match Cil.unrollType t with
  | TInt (k, _) -> Cil.isSigned k
  | TEnum (ei, _) -> Cil.isSigned ei.ekind
  | _ -> false

(* (unsigned)(1 << 31) is (unsigned)1 << 31, which no analysis option objects to *)
let const_shift = object
  inherit Cil.nopCilVisitor
  method! vexpr e = match e.enode with
    | CastE (t, { enode = BinOp (Shiftlt, ({ enode = Const _ } as a), b, _) })
      when Cil.isIntegralType t && not (signed t) && Cil.bitsSizeOf t = Cil.bitsSizeOf (Cil.typeOf a) ->
      let loc = e.eloc in
      Cil.ChangeTo (Cil.new_exp ~loc (BinOp (Shiftlt, Cil.mkCast ~newt:t a, b, t)))
    | _ -> Cil.DoChildren
end

let pieces_fun (f : fundec) =
  let shifted = Hashtbl.create 7 in
  let find = object
    inherit Cil.nopCilVisitor
    method! vexpr e = (match e.enode with
        | BinOp (Shiftrt, a, n, _) ->
          (match int_of_string_opt (Format.asprintf "%a" Cil_datatype.Exp.pretty n) with
           | Some n when n mod 8 <> 0 -> ()
           | _ -> List.iter (fun v -> Hashtbl.replace shifted v ()) (vars_of a))
        | _ -> ()); Cil.DoChildren
  end in
  ignore (Cil.visitCilFunction (find :> Cil.cilVisitor) f);
  let mask_all = ref false in
  let mask = object
    inherit Cil.nopCilVisitor
    method! vinst i = (match i with
        | Set (lv, e, _) when mentions_lval lv e -> mask_all := false
        | Set ((Mem _, NoOffset), _, _) -> mask_all := true
        | Set ((_, off), _, _) when (let rec last = function Index (_, NoOffset) -> true | Index (_, o) | Field (_, o) -> last o | NoOffset -> false in last off) -> mask_all := true
        | _ -> mask_all := false); Cil.DoChildren
    method! vstmt _ = mask_all := false; Cil.DoChildren
    method! vexpr e = match e.enode with
      | CastE (t, a) when (match Cil.unrollType t, Cil.unrollType (Cil.typeOf a) with
          | (TInt _ | TEnum _), (TInt _ | TEnum _) -> Cil.bitsSizeOf t <= 16 && Cil.bitsSizeOf (Cil.typeOf a) > Cil.bitsSizeOf t
          | _ -> false)
                       && (!mask_all || (match Cil.unrollType t with TInt (IChar, _) -> true | _ -> false) || List.exists (Hashtbl.mem shifted) (vars_of a)) ->
        let loc = e.eloc in
        Cil.ChangeDoChildrenPost (e, fun e -> match e.enode with
            | CastE (t, a) -> Cil.new_exp ~loc (CastE (t, Cil.mkBinOp ~loc BAnd a (Cil.mkCast ~newt:(Cil.typeOf a) (Cil.integer ~loc ((1 lsl (Cil.bitsSizeOf t - (if signed t then 1 else 0))) - 1)))))
            | _ -> e)
      | _ -> Cil.DoChildren
  end in
  ignore (Cil.visitCilFunction (mask :> Cil.cilVisitor) f)

let is_model_name n =
  let pre p = String.length n >= String.length p && String.sub n 0 (String.length p) = p in
  pre "__mdl" || pre "Frama_C" || pre "__fc"

let () =
  File.add_code_transformation_after_cleanup category (fun file ->
      if (try ignore (Globals.Vars.find_from_astinfo "__lj_active" VGlobal); true with Not_found -> false) then begin
        List.iter (function
            | GVar (v, _, _) | GVarDecl (v, _) when is_model_name v.vname -> ()
            | GFunDecl (_, v, _) when is_model_name v.vname -> ()
            | g -> ignore (Cil.visitCilGlobal (strip_volatile :> Cil.cilVisitor) g)) file.globals;
        List.iter (fun g -> ignore (Cil.visitCilGlobal (const_shift :> Cil.cilVisitor) g)) file.globals;
        let active = find_global "__lj_active" and target = find_global "__lj_target"
        and value = find_global "__lj_value" in
        List.iter (function GFun (f, _) when f.svar.vname <> "mdl_entry" -> lower_fun active target value f | _ -> ()) file.globals;
        if Sys.getenv_opt "LOWER_RETSPLIT" <> None then begin
          let off = find_global "__ret_off" in
          let fn = (try Globals.Functions.find_by_name "Frama_C_offset" with Not_found -> Kernel.abort "lower: Frama_C_offset missing") in
          List.iter (function GFun (f, _) when not (is_model_name f.svar.vname) -> retsplit_fun off (Kernel_function.get_vi fn) f | _ -> ()) file.globals
        end;
        if Sys.getenv_opt "LOWER_NARROW" <> None then
          List.iter (function GFun (f, _) -> pieces_fun f | _ -> ()) file.globals;
        Kernel.feedback "lower: functions=%d setjmp=%d longjmp=%d calls=%d" !n_funcs !n_setjmp !n_longjmp !n_calls
      end)
