IN, HI = "inputs", "histories"
UVD = "src/pyuvdata/uvdata/uvdata.py"

prop("C01", "UVData selection keeps exactly the requested data, every value with its labels",
     "Selecting from a visibility object by any combination of antennas, antenna names, baselines, times, LSTs, "
     "ranges, frequencies, channels, polarizations, blt indices or phase centers keeps exactly the cells whose labels "
     "satisfy every criterion, each value, flag and sample count still attached to the baseline, time, frequency, "
     "polarization, phase center and metadata it had before, in the original order. The result is self-consistent (counts, orderings, "
     "shapes, catalog), the source object is untouched unless the call is in place, and a request matching nothing or naming "
     "unknown items is refused (or, where documented, warned about) without changing the object.",
     [IN, HI], "every object layout (ragged, shuffled, multi-window, flex-pol, multi phase center, with or without data) and every criteria combination",
     "tests select from a few regular files with one or two criteria at a time and compare axes, rarely the cells",
     [UVD, "src/pyuvdata/uvbase.py", "src/pyuvdata/utils/bltaxis.py"],
     [("select criteria to index sets", "UVData._select_preprocess"), ("index every parameter by its form", "UVBase._select_along_param_axis")],
     observe=["UVData.select"])
prop("C02", "Reordering and conjugating baselines never detaches a value from its labels",
     "Reordering a visibility object along its baseline-time, frequency or polarization axis, by any documented order or explicit permutation, is a pure "
     "permutation: every value, flag and sample count stays with its labels, all per-row and per-channel metadata move along, and the requested order is achieved. "
     "Conjugating baselines, by any convention or index list, swaps the antennas, negates uvw, conjugates the data "
     "and swaps the cross-hand polarizations of data, flags and sample counts together for exactly the baselines the convention requires. "
     "The recorded ordering and rectangularity always describe the object truthfully.",
     [IN, HI], "every object layout, every order/convention and every sequence of these calls",
     "tests check that applying an order sorts the sort keys on a few files; orders are rarely combined and flags/nsamples of conjugated rows are not distinguished",
     [UVD], [("reorder", "UVData.reorder_blts / reorder_freqs / reorder_pols"), ("conjugation", "UVData.conjugate_bls"),
             ("derived ordering state", "UVData.set_rectangularity")], observe=["UVData.reorder_blts", "UVData.conjugate_bls"])
prop("C03", "Combining UVData objects gives their union with every value at its own labels",
     "Adding two visibility objects, or concatenating several along an axis, gives the union (or concatenation) of their axes with every cell and "
     "every label taken from the object that has it, and flagged zero padding elsewhere, whatever the internal ordering of the operands. "
     "Phase centers stay attached to the right rows even when catalog ids collide. Overlapping valid data or "
     "incompatible metadata is refused and leaves the operands unchanged.",
     [IN, HI], "every pair/tuple of partial, shuffled, overlapping objects and every merge order",
     "tests split one file into two or three regular pieces in file order and add them back",
     [UVD], [("pad, place and sort", "UVData.__add__"), ("concatenate", "UVData.fast_concat"),
             ("catalog merge", "UVData._consolidate_phase_center_catalogs")], observe=["UVData.__add__", "UVData.fast_concat"])
prop("C04", "UVData accessors return exactly the data, flags and labels of the named cells",
     "Asking a visibility object for the data, flags, sample counts, times, LSTs, uvws or metadata of a baseline, antenna pair, polarization or any key combination "
     "(with or without squeezing, in either antenna order) returns exactly the cells carrying those labels, in time order of storage, conjugated with cross polarizations swapped when the baseline is "
     "stored reversed, and unknown keys are refused. Setters write exactly those cells and nothing else. The listing functions (antenna pairs, baselines, polarizations, feeds, indices of a baseline) "
     "agree with the arrays after any sequence of edits.",
     [IN, HI], "every object layout, key form, antenna order and edit history (cached index tables included)",
     "tests query a handful of baselines of regular files and never with stale caches, mixed orientation or partial polarization",
     [UVD, "src/pyuvdata/utils/tools.py"],
     [("key to indices", "UVData._key2inds"), ("smart slicing", "UVData._smart_slicing"), ("cached antenna pair index", "UVData.antpair2ind")],
     observe=["UVData.get_data", "UVData.set_data", "UVData.antpairpol_iter"])
PHS = "src/pyuvdata/utils/phasing.py"
prop("C05", "Phasing conserves the sky signal and keeps uvws, coordinates, labels consistent",
     "Phasing, unphasing, phasing to a time, recomputing uvws and moving antennas rotate each selected visibility by exactly the geometric phase implied by the change of its w coordinate "
     "(so phase plus fringe is conserved along any sequence of such calls), keep amplitudes, flags, sample counts and all other labels, and leave unselected and unprojected rows untouched. Afterwards the "
     "apparent coordinates and frame angle are those of the requested direction at each row's time (sidereal, moving, driftscan; any frame), and the uvws are those of the antenna positions (or of the rotated old uvws) "
     "toward it. Every row names the phase center it is really phased to, and a failed call changes nothing.",
     [IN, HI], "every direction, frame, row mask, starting projection (mixed per row) and sequence of calls",
     "tests phase whole regular files to a few directions and back; masks, mixed projections and call sequences are barely sampled",
     [UVD, PHS], [("apply w phase", "UVData._apply_w_proj"), ("phase", "UVData.phase"), ("unproject", "UVData.unproject_phase"),
                  ("apparent coordinates", "utils.phasing.calc_app_coords"), ("uvw rotation", "utils.phasing.calc_uvw")],
     observe=["UVData.phase", "UVData.unproject_phase", "UVData.phase_to_time", "UVData.set_uvws_from_antenna_positions", "UVData.update_antenna_positions"])
prop("C06", "Phase-center catalog edits change exactly the named entries and rows",
     "Renaming, splitting and merging phase centers change exactly the named catalog entries and the selected rows: every row still refers to an existing entry with the same sky coordinates (unless a forced merge says otherwise), ids stay unique, "
     "unrelated entries and rows and all data are untouched, and ambiguous, unknown or colliding requests are refused without changing the object.",
     [IN, HI], "every catalog (duplicate names, several ids per source), identifier form, row selection and sequence of edits",
     "tests run a few edits on one multi-source file and compare against one expected catalog",
     [UVD, "src/pyuvdata/utils/phase_center_catalog.py"],
     [("catalog lookup", "utils.phase_center_catalog.look_in_catalog"), ("split", "UVData.split_phase_center"), ("merge", "UVData.merge_phase_centers")],
     observe=["UVData.phase_center_catalog", "UVData.phase_center_id_array"])
prop("C07", "Resampling in time averages exactly each baseline's consecutive integrations",
     "Downsampling replaces each baseline's consecutive integrations, grouped greedily to the requested number or duration, by their average (sample- and time-weighted, unflagged data only, summed in summing correlator mode) with the "
     "total integration time, the weighted central time, and the total sample fraction, flagged only when every contribution is. Upsampling splits each long integration into equal pieces that tile it and carry its value. "
     "Afterwards uvws, LSTs and apparent coordinates belong to the new times, each row keeps its baseline and phase center, data without a fixed direction are averaged as seen from one common direction, and windows mixing phase centers or unusable targets are refused.",
     [IN], "every ragged, gappy, shuffled, partly flagged, multi-phase-center set of integrations, target and mode",
     "tests resample one or two regular files and compare the first integrations of one baseline",
     [UVD], [("downsample", "UVData.downsample_in_time"), ("upsample", "UVData.upsample_in_time"), ("resample", "UVData.resample_in_time"), ("harmonise", "UVData._harmonize_resample_arrays")],
     observe=["UVData.downsample_in_time", "UVData.upsample_in_time", "UVData.resample_in_time"])
prop("C08", "Frequency averaging combines exactly n adjacent channels of one spectral window",
     "Averaging n channels groups each spectral window's channels in order (or all channels when windows are not respected), keeping or dropping the ragged remainder as asked. Every output channel has the mean frequency, total width, window and "
     "mean equalization of its members; its data are the sample-weighted mean (or sum) of the unflagged members, its sample count their mean, its flag set when all members (any, when propagating) are flagged. All other labels are unchanged.",
     [IN], "every channelisation, window layout, flag pattern, averaging factor and mode",
     "tests average a few regular files by a divisor and compare a few numbers",
     [UVD], [("frequency averaging", "UVData.frequency_average")], observe=["UVData.frequency_average"])
prop("C09", "UVH5 files give back what was written, whole or in part, piecewise or at once",
     "Writing a visibility object to a UVH5 file and reading it back gives an equal object, data, flags, sample counts and all metadata. Reading with any selection gives exactly what reading everything and selecting gives, and "
     "reading several files gives exactly their combination. Filling an initialised file piece by piece, in any order and along any axes, leaves exactly the pieces written and blanks elsewhere, and pieces whose header does not match are refused. "
     "The header-only view answers every question about axes, baselines and keys as the full object would, and refused calls or clobber protection leave both file and object unchanged.",
     [IN, HI], "every object layout, selection, partition into pieces or files and sequence of writes and reads",
     "tests round trip a few regular files and write a few fixed partitions in file order",
     ["src/pyuvdata/uvdata/uvh5.py", "src/pyuvdata/hdf5_utils.py", UVD],
     [("write", "UVH5.write_uvh5"), ("piecewise write", "UVH5.write_uvh5_part"), ("partial read", "UVH5._get_data"), ("header view", "FastUVH5Meta")],
     observe=["UVData.write_uvh5", "UVData.initialize_uvh5_file", "UVData.write_uvh5_part", "UVData.read", "FastUVH5Meta"])
CAL = "src/pyuvdata/uvcal/uvcal.py"
prop("C10", "Selecting, reordering and reading calibration objects keep values with labels",
     "Selecting any part of a calibration object (antennas, channels, spectral windows, times or LSTs and their ranges, Jones terms, phase centers, alone or together) keeps exactly the requested elements, in their order, with every "
     "gain, delay, flag and quality still attached to its own antenna, frequency, time and Jones labels. Reordering any axis is a pure permutation into the documented order. Per-antenna getters and index lookups return the stored values for that "
     "label; requests for labels that are not there, or that leave nothing, are refused and the object stays as it was.",
     [IN, HI], "every object kind (gain, delay, wide-band, time ranges, flex-Jones, metadata only), argument combination and call sequence",
     "tests use a few regular files, one argument at a time and mostly compare shapes and label arrays",
     [CAL, "src/pyuvdata/utils/times.py"],
     [("selection", "UVCal._select_preprocess"), ("slicing", "UVCal._select_by_index"), ("time choice", "utils.times._select_times_helper"), ("reorder", "UVCal.reorder_freqs")],
     observe=["UVCal.select", "UVCal.reorder_antennas", "UVCal.reorder_freqs", "UVCal.reorder_times", "UVCal.reorder_jones", "UVCal.get_gains"])
prop("C11", "Combining calibration objects is the union of their labelled solutions",
     "Adding two calibration objects, or concatenating several along an axis, gives exactly the union of their labels, each solution, flag and quality at its own labels, zeros flagged where neither had a value, total quality kept where it is still "
     "meaningful, and per-time, per-window and phase-center metadata following their labels whatever ids each object used. Overlapping or incompatible objects are refused, and neither the operands nor (after a refusal) the target are changed.",
     [IN, HI], "every partition, order, partial overlap, set of optional arrays and catalog numbering of the objects",
     "tests split regular files in halves along one axis and add them back in order",
     [CAL], [("add", "UVCal.__add__"), ("concatenate", "UVCal.fast_concat"), ("catalog merge", "UVCal._consolidate_phase_center_catalogs")],
     observe=["UVCal.__add__", "UVCal.__iadd__", "UVCal.fast_concat"])
prop("C12", "Converting calibration objects between equivalent forms keeps every solution",
     "Making a calibration object flex-Jones and undoing it keep every solution, flag and quality (including total quality) with its frequency, width and Jones term: each window gets its own number per Jones term, windows that match are merged back "
     "and gaps are flagged. Converting delays to gains gives the unit gain with phase plus or minus two pi delay times frequency at each given frequency, with the antenna's flags and qualities repeated. Conversions that cannot be made are refused without changing the object.",
     [IN], "every object kind, window layout (different lengths, order, duplicates), optional arrays and frequencies",
     "tests convert one or two files with identical windows and compare after a round trip",
     [CAL], [("to flex", "UVCal.convert_to_flex_jones"), ("from flex", "UVCal.remove_flex_jones"), ("delays to gains", "UVCal.convert_to_gain")],
     observe=["UVCal.convert_to_flex_jones", "UVCal.remove_flex_jones", "UVCal.convert_to_gain"])
prop("C13", "UVFITS files return the visibilities, labels and metadata that were written",
     "Writing an object to a UVFITS file and reading it back, whole or restricted by any selection criteria, gives every visibility, flag, sample count, uvw, time, LST, baseline, frequency, polarization, phase center and antenna as they were, up to what the format "
     "documents: polarizations sorted, spectral windows renumbered in order, unweighted cells flagged, one coordinate frame for all phase centers. A partial read equals the same selection of the whole file. Objects the format cannot hold (unphased unless phasing is asked "
     "for, uneven channels, polarizations or windows) are refused rather than written wrongly, and writing does not change the object.",
     [IN], "every object layout (windows, descending channels, frames, precision, antenna numbers, optional keywords) and selection on read",
     "tests round trip a few files and select along one axis of files with one spectral window",
     ["src/pyuvdata/uvdata/uvfits.py", "src/pyuvdata/utils/io/fits.py"],
     [("write", "UVFITS.write_uvfits"), ("partial read", "UVFITS._get_data"), ("row parameters", "UVFITS._get_parameter_data")],
     observe=["UVData.write_uvfits", "UVData.read", "UVData.read_uvfits"])
prop("C14", "Miriad files return the visibilities, labels and metadata that were written",
     "Writing an object to a Miriad file and reading it back gives every visibility, flag, sample count, uvw, time, LST, baseline, frequency, channel width, polarization, phase center and antenna as they were, up to what the format documents "
     "(single precision data, rows sorted by time, polarizations it can name). Selections on read, native or applied after reading, give exactly the selection of the whole file. Objects the format cannot hold "
     "(uneven channels, interleaved windows, keywords without a value) are refused before any existing file is touched, and existing files are replaced only when asked.",
     [IN, HI], "every object layout (windows, integration times, frames, mixed phase centers, antenna order, optional keywords), sequence of writes and selection on read",
     "tests round trip a few files that were themselves read from Miriad and select along one axis",
     ["src/pyuvdata/uvdata/miriad.py", UVD],
     [("write", "Miriad.write_miriad"), ("read", "Miriad.read_miriad"), ("select after read", "UVData.read")],
     observe=["UVData.write_miriad", "UVData.read", "UVData.read_miriad"])
BEAM = "src/pyuvdata/uvbeam/uvbeam.py"
prop("C15", "Selecting and combining beams keep every response with its labels",
     "Selecting any part of a beam (image axis positions, healpix pixels, frequencies or channels, feeds, polarizations) keeps exactly the requested elements in the order of the object, each response, basis vector, bandpass, coupling and optional "
     "per-frequency value still at its own labels. Adding two beams gives the union of their labels with every response at its own labels, whatever the order of labels in either, and zeros where neither had a value. Overlapping or incompatible beams and requests for labels "
     "that are not there are refused without changing the operands.",
     [IN, HI], "every beam kind (E-field, power, phased array, az-za, other grids, healpix), label order, partition and selection",
     "tests select and split one or two regular files in file order",
     [BEAM], [("selection", "UVBeam.select"), ("combination", "UVBeam.__add__")], observe=["UVBeam.select", "UVBeam.__add__", "UVBeam.__iadd__"])
prop("C16", "Beam conversions and interpolation give the values the definitions require",
     "Converting an E-field beam to power gives, at every pixel and frequency, the feed products summed over the components of the basis vectors (or per basis vector when those are kept), labelled by the polarization of the feed pair; pseudo-Stokes conversion gives half the absolute trace with the Stokes matrices. "
     "Peak normalisation divides each channel by its maximum and moves it to the bandpass. Interpolation returns the stored values at stored nodes and the linear mixture between them (also across the azimuth seam), for exactly the requested polarizations and frequencies, with the matching bandpass "
     "and coupling, whatever was interpolated or changed before. Beam areas are pixel sums, healpix conversion covers the pixels near the grid, and refused conversions leave the beam as it was.",
     [IN, HI], "every beam kind, feed and polarization order, basis rotation, query grid, and history of in-place changes between interpolations",
     "tests interpolate to the original nodes of one file or compare two code paths of the implementation with each other",
     [BEAM], [("to power", "UVBeam.efield_to_power"), ("pseudo Stokes", "UVBeam.efield_to_pstokes"), ("interpolation", "UVBeam.interp"), ("healpix", "UVBeam.to_healpix")],
     observe=["UVBeam.efield_to_power", "UVBeam.efield_to_pstokes", "UVBeam.peak_normalize", "UVBeam.interp", "UVBeam.to_healpix", "UVBeam.get_beam_area"])
prop("C17", "Beamfits files return the beams that were written, whole or by range",
     "Writing a beam to a beamfits file and reading it back gives every response, basis vector, label, bandpass and optional value and all scalar metadata as they were. Reading with frequency, azimuth or zenith-angle ranges gives exactly the part of the file inside the ranges, "
     "and reading several files gives their combination. Beams the format cannot hold (uneven axes, phased arrays, unsupported keywords) are refused, existing files are replaced only when asked, and writing does not change the beam.",
     [IN, HI], "every beam kind, axis direction, precision, optional array, range and sequence of writes",
     "tests round trip the files they have and never a real power beam with several polarizations",
     ["src/pyuvdata/uvbeam/beamfits.py", BEAM], [("write", "BeamFITS.write_beamfits"), ("read", "BeamFITS.read_beamfits")], observe=["UVBeam.write_beamfits", "UVBeam.read_beamfits", "UVBeam.read"])
FLAGF = "src/pyuvdata/uvflag/uvflag.py"
prop("C18", "Flag objects are selected, combined, ORed and stored without loss",
     "Selecting a UVFlag object by antennas, baselines, times, indices, channels, frequencies or polarizations keeps exactly the entries with those labels, each flag or metric and weight with its own labels, whatever the order or repetition of the arguments. "
     "Adding two objects along an axis is the concatenation of their labels and values (with the union of antennas, windows and file names); OR is entrywise. Writing and reading back gives the same object, several files their time concatenation. "
     "Selections and combinations that make no sense are refused and leave all operands as they were; results share no memory with operands, and every result is internally consistent.",
     [IN, HI], "every type, mode, label order, argument form and sequence of operations", "tests sample single selections on one file and never look at refused calls",
     [FLAGF], [("selection", "UVFlag.select"), ("addition", "UVFlag.__add__"), ("or", "UVFlag.__or__"), ("files", "UVFlag.read")],
     observe=["UVFlag.select", "UVFlag.__add__", "UVFlag.__or__", "UVFlag.read", "UVFlag.write"])
prop("C19", "Flag objects convert between types and modes with the defined values",
     "Collapsing to a waterfall or over polarizations gives for every time and channel the weighted mean, absolute mean, quadratic mean, OR or AND of exactly the entries there, with summed weights, infinite metrics ignored and weightless cells infinite; combining metrics does the same across objects. "
     "Broadcasting a waterfall or antenna flags to the baselines or antennas of another object gives each entry the value of its own time (OR of both antennas), with the documented value where there is none. "
     "Thresholding, metric weights from fully flagged rows and columns, initialisation from data or calibration objects and flag fractions follow their definitions. Refused conversions change nothing, and the other object is neither changed nor shared.",
     [IN, HI], "every type, mode, time order, weight pattern, template object and chain of conversions", "tests use one template with sorted times, unit weights and the same times on both sides",
     [FLAGF, "src/pyuvdata/utils/array_collapse.py"], [("collapse", "UVFlag.to_waterfall"), ("broadcast", "UVFlag.to_baseline"), ("antennas", "UVFlag.to_antenna"), ("values", "mean_collapse")],
     observe=["UVFlag.to_waterfall", "UVFlag.collapse_pol", "UVFlag.to_baseline", "UVFlag.to_antenna", "UVFlag.to_flag", "UVFlag.to_metric", "UVFlag.combine_metrics", "UVFlag.from_uvdata", "UVFlag.from_uvcal", "flags2waterfall"])
prop("C20", "Applying gains and flags to visibilities uses the solution of the right labels",
     "uvcalibrate multiplies or divides every visibility by exactly the product of the gains (or delay phases) of its two antennas by name, feed, frequency and time or time range, whatever the order of the axes on either object; flagged or zero gains and missing antennas flag the data as documented, "
     "undo inverts, and units and polarization conventions follow their rules. apply_uvflag ORs onto every visibility exactly the flag of its antenna pair, time, frequency and polarization (broadcasting single times, channels or polarizations; flagging what is missing on request). "
     "Mismatched objects are refused, refused or not-in-place calls change no operand, and no label or other metadata changes.",
     [IN], "every pair of objects: label orders, subsets, ragged baselines, antenna numbering, solution kinds, conventions and options", "tests use calibration and flag objects in the same order as the data",
     ["src/pyuvdata/utils/uvcalibrate.py", "src/pyuvdata/utils/apply_uvflag.py"], [("gains", "uvcalibrate"), ("flags", "apply_uvflag")], observe=["utils.uvcalibrate", "utils.apply_uvflag"])
prop("C21", "Calibration files return the solutions, labels and metadata that were written",
     "Writing a UVCal object as calh5 or calfits and reading it back gives the same antennas, times or time ranges, frequencies or windows and Jones terms in the same order, each gain or delay, flag and quality with its labels, and the same optional metadata; calfits drops only the per-time metadata it documents. "
     "Reading with a selection equals reading everything and selecting; metadata-only reads and the lazy calh5 metadata object agree with the full object; reading several files gives their combination. "
     "Objects a format cannot hold are refused, an existing file is replaced only with clobber, and writing does not change the object.",
     [IN, HI], "every solution type, axis order and direction, optional array, selection argument and sequence of writes",
     "tests round trip the files they have: ascending frequencies, short names, one window", ["src/pyuvdata/uvcal/calfits.py", "src/pyuvdata/uvcal/calh5.py", "src/pyuvdata/uvcal/uvcal.py"],
     [("calfits", "CALFITS.write_calfits"), ("calh5", "CalH5.write_calh5"), ("read", "UVCal.read"), ("lazy metadata", "FastCalH5Meta")],
     observe=["UVCal.write_calh5", "UVCal.write_calfits", "UVCal.read", "FastCalH5Meta"])
prop("C22", "No sequence of operations parts a visibility from its labels",
     "Through any history of selecting, splitting, adding, conjugating, reordering, writing a UVH5 file whole or in parts, and reading it whole or in parts, every visibility, flag and sample count stays with its antenna pair (up to conjugation), time, frequency and polarization. "
     "Splitting an object by any criterion and adding the pieces gives back the same labelled data; conjugating twice is the identity; selections on different axes commute; a file filled in parts in any order holds what the object held. "
     "A refused step changes nothing.",
     [HI, IN], "all histories of the model (exhaustive to a depth) and random behaviours of it replayed in the real code", "tests apply one or two operations to one file",
     ["src/pyuvdata/uvdata/uvdata.py", "src/pyuvdata/uvdata/uvh5.py"], [("operations", "UVData.select"), ("combination", "UVData.__add__"), ("files", "UVH5.write_uvh5_part")],
     observe=["UVData.select", "UVData.__add__", "UVData.conjugate_bls", "UVData.reorder_blts", "UVData.reorder_pols", "UVData.reorder_freqs", "UVData.write_uvh5", "UVData.write_uvh5_part", "UVData.read"])
prop("C23", "Redundant baselines are grouped, averaged and inflated as what they measure",
     "get_redundancies partitions the baselines of the data (or of all antennas) so that two are in one group exactly when their vectors agree within the tolerance, up to reversal when conjugates are included, whatever phase centers, time order or shape the data have; the reversed ones are the ones listed, and vectors and lengths are the groups'. "
     "compress_by_redundancy leaves one baseline per group: its own rows, or for every time, channel and polarization the nsample-weighted mean of the group's unflagged visibilities, reversed baselines conjugated with their cross polarizations exchanged. "
     "inflate_by_redundancy gives every baseline of a group exactly the rows of the group's baseline. All other labels and metadata stay, and refused calls change nothing.",
     [IN, HI], "every array with separated redundant classes, directions, ragged or reordered data, flags and weights", "tests use one simulated array with parallel-hand or unflagged data in one order",
     ["src/pyuvdata/uvdata/uvdata.py", "src/pyuvdata/utils/redundancy.py"], [("groups", "UVData.get_redundancies"), ("compression", "UVData.compress_by_redundancy"), ("inflation", "UVData.inflate_by_redundancy"), ("clusters", "get_baseline_redundancies")],
     observe=["UVData.get_redundancies", "UVData.compress_by_redundancy", "UVData.inflate_by_redundancy"])
prop("C24", "Visibility arithmetic and flexible polarization keep values with their labels",
     "sum_vis and diff_vis give entrywise sums and differences of two objects that agree in everything else (up to overridden parameters), and refuse others. "
     "remove_eq_coeffs scales every visibility by the coefficients of its two antennas at its frequency; normalize_by_autos divides (or multiplies) it by the geometric mean of the autocorrelations of its antennas, feeds, frequency and time, and flags it when one is missing or flagged. "
     "Converting to flexible polarization and back moves every visibility to the channel or polarization with its frequency and polarization, fills only what was not measured, and keeps windows, coefficients and other labels. Refused calls change nothing.",
     [IN, HI], "every blt order, polarization set, window layout, channel order and coefficient convention", "tests use time-ordered files and round trips that undo their own mistakes",
     ["src/pyuvdata/uvdata/uvdata.py"], [("sum", "UVData.sum_vis"), ("equalization", "UVData.remove_eq_coeffs"), ("normalization", "UVData.normalize_by_autos"), ("flex-pol", "UVData.convert_to_flex_pol"), ("back", "UVData.remove_flex_pol")],
     observe=["UVData.sum_vis", "UVData.diff_vis", "UVData.remove_eq_coeffs", "UVData.normalize_by_autos", "UVData.convert_to_flex_pol", "UVData.remove_flex_pol"])
prop("C25", "Objects are equal, independent and valid exactly when they say so",
     "Two objects of a class (UVData, UVCal, UVBeam, UVFlag, Telescope) compare equal exactly when every parameter that is compared agrees within its documented tolerance, in whichever direction they are compared, and != is the opposite; comparing changes nothing. "
     "Copies, deep copies, pickles and objects made by select, fast_concat or from another object share no memory with their source: whatever is later done to one leaves the other as it was. "
     "check() accepts every consistent object and refuses every object in which one array has a wrong shape, type or value, one count is wrong, one label is unknown or a required parameter is missing (under the options that ask for that test), and changes nothing.",
     [IN, HI], "every parameter of every class, every kind of change to it, every history of copies, changes and comparisons", "tests change a handful of parameters of one file each",
     ["src/pyuvdata/uvbase.py", "src/pyuvdata/parameter.py", "src/pyuvdata/uvdata/uvdata.py", "src/pyuvdata/uvcal/uvcal.py", "src/pyuvdata/uvbeam/uvbeam.py", FLAGF, "src/pyuvdata/telescopes.py"],
     [("equality", "UVBase.__eq__"), ("values", "UVParameter.__eq__"), ("copies", "UVBase.copy"), ("validity", "UVBase.check"), ("data checks", "UVData.check")],
     observe=["UVBase.__eq__", "UVBase.copy", "UVBase.check", "UVData.check", "UVCal.check", "UVBeam.check", "UVFlag.check", "Telescope.check"])
NEWF = "src/pyuvdata/uvdata/initializers.py"
CNEWF = "src/pyuvdata/uvcal/initializers.py"
prop("C26", "Objects built from their parts have exactly the labels and values given",
     "UVData.new gives the rows asked for (every time for every antenna pair, or one pair per time) in the documented order, each with its own time, sidereal time, integration time, uvw, phase center and data, whatever the order of times and antennas; frequencies, widths, windows and polarizations (numbers or strings) are the given ones. "
     "UVCal.new and UVCal.initialize_from_uvdata do the same for antennas, times or time ranges, frequencies or ranges, Jones terms and telescope, and leave the source object alone. What is inferred (integration times, channel widths, orders) is true of the object, "
     "contradictory or incomplete arguments are refused, and every object built is consistent.",
     [IN], "every order of times, antennas and frequencies, every combination of given and inferred arguments", "tests build objects from sorted times, antennas and frequencies",
     [NEWF, CNEWF], [("uvdata", "new_uvdata"), ("rows", "configure_blt_rectangularity"), ("uvcal", "new_uvcal"), ("from data", "new_uvcal_from_uvdata")],
     observe=["UVData.new", "UVCal.new", "UVCal.initialize_from_uvdata"])
BLSF, POLF = "src/pyuvdata/utils/bls.py", "src/pyuvdata/utils/pol.py"
prop("C27", "Polarization names, baseline numbers and antenna strings mean one thing",
     "Every polarization and Jones number has one name for an x orientation and every accepted name (any letter case, feed or direction letters, single or listed) gives its number back; unknown names and numbers are refused; conjugation exchanges the two feeds and is its own inverse; what is handed out can be changed without changing later answers. "
     "Baseline numbers are distinct for distinct antenna pairs and give the same pair back in all three numbering conventions up to the largest antenna number, scalar or array, and reversing a baseline exchanges its antennas. "
     "An antenna string, given to parse_ants or to select, stands for exactly the baselines and polarizations its terms add and take away in order, in whichever orientation the data has them; a string that names nothing in the data is refused by select and changes nothing.",
     [IN, HI], "every name, every antenna number and every sequence of terms", "tests try a few names, numbers and strings",
     [BLSF, POLF, UVD], [("names", "utils.pol.polstr2num"), ("names back", "utils.pol.polnum2str"), ("conjugates", "utils.pol.conj_pol"), ("numbers", "utils.bls.antnums_to_baseline"), ("antennas", "utils.bls.baseline_to_antnums"), ("antenna strings", "utils.bls.parse_ants")],
     observe=["utils.pol functions", "utils.bls functions", "UVData.select(ant_str=)"])

TELF, CRDF, APF = "src/pyuvdata/telescopes.py", "src/pyuvdata/utils/coordinates.py", "src/pyuvdata/utils/io/antpos.py"
prop("C28", "Antenna positions agree in every frame; each antenna keeps its own data",
     "Conversions between geocentric, geodetic, local east-north-up and rotated frames are mutually inverse and agree with the defining rotations for every telescope on Earth or Moon, every antenna, and single or listed points; positions that are not near the surface are refused when that is asked for. "
     "A Telescope built from names, numbers and positions (mapping, list or array, in any of the accepted frames) pairs each antenna with exactly its own name, number, position and diameter; filling in what is known of a telescope changes only what is missing (or what is asked to be overwritten) and gives every antenna its own data whether it is found by name or by number; antenna tables of any length can be read; and a telescope read back from a file header is the telescope that was written.",
     [IN, HI], "every location, position, antenna table and mixture of missing data", "tests convert a few positions and fill in a few known telescopes",
     [TELF, CRDF, APF], [("geocentric", "utils.XYZ_from_LatLonAlt"), ("geodetic", "utils.LatLonAlt_from_XYZ"), ("local frame", "utils.ENU_from_ECEF"), ("rotated frame", "utils.rotECEF_from_ECEF"), ("building", "telescopes.Telescope.new"), ("known telescopes", "Telescope.update_params_from_known_telescopes"), ("antenna tables", "utils.io.antpos.read_antpos_csv"), ("header", "Telescope.from_hdf5")],
     observe=["utils.coordinates functions", "Telescope attributes", "read_antpos_csv"])
MSF, MSUF = "src/pyuvdata/uvdata/ms.py", "src/pyuvdata/utils/io/ms.py"
prop("C29", "Measurement sets give the visibilities back",
     "An object written to a measurement set and read back has, for every baseline and time, the same data, flags, weights, uvws, times, scans and phase centers, and the same channels, windows, polarizations and antennas, whatever the order of the antennas, polarizations and windows, the number of windows and phase centers, their frames and proper motions, with one polarization per window or several, and with or without the opposite conjugation being asked for. "
     "Further data columns come back as they were given; windows of one channel are left out exactly when that is asked for; unprojected data are refused unless phasing is asked for; an existing file is replaced only when that is asked for; and writing changes neither the data of the object nor the arrays handed in.",
     [IN, HI], "every valid object, option and sequence of writes and reads", "tests convert a few example files",
     [MSF, MSUF], [("writing", "MS.write_ms"), ("reading", "MS.read_ms, MS._read_ms_main"), ("subtables", "utils.io.ms write_ms_*, read_ms_*")],
     observe=["UVData.write_ms", "UVData.read_ms", "UVData.read"])
MCF = "src/pyuvdata/uvcal/ms_cal.py"
prop("C30", "Calibration tables in measurement sets give the solutions back",
     "Gains, wide-band gains and delays written to a measurement set calibration table and read back have, for every antenna, channel or window, time (or time range) and Jones element, the same value, flag and quality (the product of the two qualities), under the same labels: antennas, windows, frequencies, Jones elements, scan numbers, reference antennas, phase centers, telescope and keywords, whatever the order of each of them in the object. "
     "Antennas without solutions are flagged; a selection at reading equals reading and then selecting; more than two Jones elements, the other gain convention and objects without data are refused; an existing table is replaced only when that is asked for; and writing leaves the object as it was.",
     [IN, HI], "every valid solution, order of its axes, option and sequence of writes and reads", "tests convert a few example tables in CASA order",
     [MCF, MSUF], [("writing", "MSCal.write_ms_cal"), ("reading", "MSCal.read_ms_cal"), ("subtables", "utils.io.ms write_ms_*, read_ms_*")],
     observe=["UVCal.write_ms_cal", "UVCal.read_ms_cal", "UVCal.read"])
MIRF = "src/pyuvdata/uvdata/mir_meta_data.py"
prop("C31", "SMA metadata tables: rows keep their header keys through every operation",
     "In the metadata tables of SMA (MIR) data every query by condition, header key or index gives the values, keys, masks or groups of exactly the rows it stands for, in table order, and changes nothing; setting values or the mask changes exactly those rows, and resetting brings back the values from before the first change and every row. "
     "The sum of two tables has every header key once, with the row of the operand that the overwrite rule names and the combined mask, leaves out flagged rows exactly when that is asked for, and is refused, with both tables as they were, where the operands contradict each other; tables are equal exactly when their rows and masks agree key by key, whatever their order. "
     "A table written to disk and read back has exactly the active rows; appending adds exactly the rows that are not there yet and refuses contradictory ones; an existing file is replaced only when that is asked for.",
     [IN, HI], "every table, mask, query and history of changes, sums, writes and reads", "tests use one example data set with sorted keys and few masks",
     [MIRF], [("queries", "MirMetaData._index_query"), ("changes", "MirMetaData.set_value, set_mask"), ("sum", "MirMetaData.__add__, _add_check"), ("equality", "MirMetaData.__eq__"), ("groups", "MirMetaData.group_by"), ("files", "MirMetaData.write, read")],
     observe=["MirMetaData methods of MirInData, MirBlData, MirSpData, MirEngData"])
