-------------------------------- MODULE OBJ --------------------------------
(* What it means for two pyuvdata objects to be equal, independent and valid.      *)
(*                                                                                  *)
(* A heap of objects, each a function from parameter names (parameters of the       *)
(* telescope flattened in as "tel.x") to value tokens.  Two values have the same    *)
(* token exactly if they agree within the documented tolerance; token 0 is "not     *)
(* set".  Next to its token every parameter has a fingerprint of its exact content, *)
(* which is what shows whether an operation touched it.                             *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Clause(ok, name) == IF ok THEN {} ELSE {name}

TelReq(cls) == {"tel.name", "tel.location", "tel.Nants", "tel.antenna_names", "tel.antenna_numbers", "tel.antenna_positions"}
               \cup (IF cls = "UVData" THEN {"tel.instrument"} ELSE {})
               \cup (IF cls = "UVCal" THEN {"tel.x_orientation"} ELSE {})

(* The parameters which every object of the class must have; everything else is optional. *)
Required(cls, v) ==
  CASE cls = "Telescope" -> {"name", "location", "Nants", "antenna_names", "antenna_numbers", "antenna_positions"}
    [] cls = "UVData" -> TelReq(cls) \cup
         {"Nants_data", "Nbls", "Nblts", "Nfreqs", "Nphase", "Npols", "Nspws", "Ntimes", "ant_1_array", "ant_2_array",
          "baseline_array", "channel_width", "data_array", "flag_array", "nsample_array", "flex_spw_id_array", "freq_array",
          "history", "integration_time", "lst_array", "phase_center_app_dec", "phase_center_app_ra", "phase_center_catalog",
          "phase_center_frame_pa", "phase_center_id_array", "polarization_array", "spw_array", "time_array", "uvw_array",
          "vis_units"}
    [] cls = "UVCal" -> TelReq(cls) \cup
         {"Nants_data", "Nfreqs", "Njones", "Nspws", "Ntimes", "ant_array", "cal_style", "cal_type", "flag_array",
          "gain_convention", "history", "integration_time", "jones_array", "spw_array", "wide_band"}
         \cup (IF v.delay THEN {"delay_array"} ELSE {"gain_array"})
         \cup (IF v.wide THEN {"freq_range"} ELSE {"freq_array", "channel_width", "flex_spw_id_array"})
         \cup (IF v.sky THEN {"ref_antenna_name", "sky_catalog"} ELSE {})
    [] cls = "UVBeam" ->
         {"Nfreqs", "antenna_type", "bandpass_array", "beam_type", "data_array",
          "data_normalization", "feed_name", "feed_version", "freq_array", "history", "model_name", "model_version",
          "pixel_coordinate_system", "telescope_name", "Naxes_vec"}
         \cup (IF v.healpix THEN {"Npixels", "nside", "ordering", "pixel_array"} ELSE {"Naxes1", "Naxes2", "axis1_array", "axis2_array"})
         \cup (IF v.efield THEN {"Nfeeds", "feed_array", "Ncomponents_vec", "basis_vector_array"} ELSE {"Npols", "polarization_array"})
         \cup (IF v.phased THEN {"Nelements", "coupling_matrix", "delay_array", "element_coordinate_system", "element_location_array", "gain_array"} ELSE {})
    [] cls = "UVFlag" -> TelReq(cls) \cup
         {"Nfreqs", "Npols", "Nspws", "Ntimes", "channel_width", "flex_spw_id_array", "freq_array", "history", "label",
          "lst_array", "mode", "polarization_array", "spw_array", "time_array", "type"}
         \cup (IF v.flag THEN {"flag_array"} ELSE {"metric_array", "weights_array"})
         \cup (IF v.type = "baseline" THEN {"Nants_data", "Nbls", "Nblts", "ant_1_array", "ant_2_array", "baseline_array"}
               ELSE IF v.type = "antenna" THEN {"Nants_data", "ant_array"} ELSE {})

(* Derived facts about the ordering of the rows may be unknown on one side. *)
MayBeUnknown == {"blt_order", "blts_are_rectangular", "time_axis_faster_than_bls"}

SameValue(p, x, y) == x = y \/ (p \in MayBeUnknown /\ (x = 0 \/ y = 0))

(* Equality: the same class, the same parameters required, and the same value for every compared parameter. *)
EqualObjs(a, b, extra, allowed) ==
  /\ a.cls = b.cls
  /\ Required(a.cls, a.v) = Required(b.cls, b.v)
  /\ (a.cls = "UVData" => (a.tok["data_array"] = 0) = (b.tok["data_array"] = 0))
  /\ \A p \in DOMAIN a.tok : p \in allowed \/ (~extra /\ p \notin Required(a.cls, a.v)) \/ SameValue(p, a.tok[p], b.tok[p])

(* ---------------------------------------------------------------- validity *)
(* What check() has to notice, and when:                                            *)
(*   always   whenever it runs           extra    only when optional parameters are checked           *)
(*   accept   only with the acceptability checks       strict/autos/spacing  only when asked for     *)
Gate(r) ==
  CASE r \in {"missing", "shape", "type", "count", "ant", "spwid", "pcid", "polzero", "polconv", "rect", "telmissing", "telshape",
              "bothtimes", "notimes", "nolst", "overlap", "notwide", "wide", "basis"} -> "always"
    [] r \in {"xshape", "xtype"} -> "extra"
    [] r \in {"value", "autouvw", "zerouvw", "range"} -> "accept"
    [] r = "xvalue" -> "xaccept"
    [] r = "uvw" -> "strict"
    [] r = "autos" -> "autos"
    [] r = "spacing" -> "spacing"

Notices(r, o) ==
  LET g == Gate(r) IN
  CASE g = "always" -> TRUE
    [] g = "extra" -> o.extra
    [] g = "accept" -> o.accept
    [] g = "xaccept" -> o.accept /\ o.extra
    [] g = "strict" -> o.accept /\ o.strict
    [] g = "autos" -> o.accept /\ o.autos
    [] g = "spacing" -> o.spacing

Valid(ob, o) == \A r \in ob.faults : ~Notices(r, o)

(* ------------------------------------------------------------- transitions *)
Untouched(os, fps, who) == \A x \in DOMAIN os \ who : fps[x] = os[x].fp

Clone(o, fp, meta) ==
  [o EXCEPT !.fp = fp,
            !.tok = [p \in DOMAIN o.tok |-> IF meta /\ p \in {"data_array", "flag_array", "nsample_array"} THEN 0 ELSE o.tok[p]]]

CloneClauses(o, fp, meta) ==
  Clause(\A p \in DOMAIN o.fp : (meta /\ p \in {"data_array", "flag_array", "nsample_array"}) \/ fp[p] = o.fp[p], "copy-differs")

Assign(o, p, tk, fp) == [o EXCEPT !.tok[p] = tk, !.fp = fp]
AssignClauses(o, p, fp) == Clause(\A q \in DOMAIN o.fp : q = p \/ fp[q] = o.fp[q], "other-parameter-changed")
=============================================================================
