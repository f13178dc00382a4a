#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "src/aligned_textgrid/"
ATG, SEQ, TIER, LIST = S + "aligned_textgrid.py", S + "sequences/sequences.py", S + "sequences/tiers.py", S + "sequence_list.py"
TMIX, MIX, WITHIN = S + "mixins/tiermixins.py", S + "mixins/mixins.py", S + "mixins/within.py"
PT, PTT, CC, DF = S + "points/points.py", S + "points/tiers.py", S + "custom_classes.py", S + "outputs/to_dataframe.py"
PC, PG, WP = S + "polar/polar_classes.py", S + "polar/polar_grid.py", S + "sequences/word_and_phone.py"

H = "histories"
I = "inputs"
HIST = ("textgrids of 1-4 tier groups of 1-5 tiers and up to 2 point tiers, tidy or with gaps, overhangs and mismatched "
        "boundaries, short or of 60 and more intervals per tier, loaded or put together, followed by up to 6 public operations (fuse, "
        "shift of the textgrid, a group or a tier, moving a boundary or a point, cleanup, re-relate, relabel, rename, append and pop, "
        "concatenate, append or replace groups and point tiers, rebuild from parts, interleave, pop class, pickle round trip)")

P = [
 ("C01", "Loading preserves every tier, entry, label and grouping",
  "A textgrid whose tiers are nested and gap-free comes out of loading exactly as it went in: every tier, with its name, in the "
  "group its entry class says, and every interval and point with its times and label, in time order. This holds for a praatio "
  "object and for a file, for nested, flat and repeated specifications of the entry classes, in whatever order the tiers of one "
  "group stand in the file. Each interval's parent is the interval of the tier above that contains it.",
  [I, "configurations"], "all textgrids with nested tiers, all orders of tiers, all forms of entry-class specification",
  "Tests load five fixed files and look at counts and a few labels.",
  [ATG, TIER, PTT], [("class extension and nesting of tiers", ATG + " _extend_classes, _nestify_tiers, _relate_tiers"),
                     ("arranging tiers by hierarchy", TIER + " _arrange_tiers")]),
 ("C02", "Export and saving lose nothing and change nothing",
  "A textgrid, whatever was done to it, exports to a praatio object and saves to every supported file format with every tier "
  "(under unique names), every interval and every point, and loading the export back with the same classes gives the same "
  "textgrid. A single tier exports and saves likewise. Exporting does not change the textgrid.",
  [H, I, "configurations"], HIST + "; all four file formats; labels with unusual characters; duplicate tier names",
  "Tests save one textgrid in one format and check that the call succeeds.",
  [ATG, TIER, PTT, MIX], [("export with renaming of duplicate tiers", ATG + " return_textgrid, save_textgrid"),
                          ("export of tiers", TIER + " return_tier, save_as_tg; " + PTT + " return_tier, save_as_tg")]),
 ("C03", "Superset and subset relations are strict and mutual",
  "At any time an interval is in the subset list of exactly the interval it names as its superset, once, and of no other; subset "
  "lists hold only intervals of the subset class, in time order. In a tier group every interval below the top tier has its "
  "superset in the tier directly above, and reading the subset lists of a tier from left to right gives the tier below. Giving an "
  "interval a new superset takes it away from the old one.",
  [H, I], HIST + "; and sequences of up to 10 relation changes between free-standing intervals",
  "Tests make one or two relations each and never move an interval from one superset to another more than once.",
  [SEQ, TIER], [("both directions set together", SEQ + " set_super_instance, set_subset_list, append_subset_list, remove_superset"),
                ("relating tiers by greatest overlap", TIER + " TierGroup.__init__")]),
 ("C04", "Following and previous entries are those next to it, with boundaries",
  "The following and previous entry of an interval are its neighbours among the intervals of the same superset (of the whole tier "
  "for a top tier or a free-standing tier; of the tier for a point), and they are mutual. At both edges there is a boundary entry "
  "of the same class, labelled '#', with no times, which is in no tier or subset list. Moving along the tier by relative position "
  "reaches the entry at that position, across superset edges, and raises IndexError outside of the tier.",
  [H, I], HIST + "; and sequences of relation changes, and of appends to and pops from a single tier",
  "Tests check neighbours on a handful of freshly made intervals, and not after edits.",
  [MIX, SEQ, TIER, PTT], [("setting precedence after every change", MIX + " set_fol, set_prev, set_final, set_initial; " + SEQ +
                           " _set_subset_precedence; " + TIER + " and " + PTT + " __set_precedence")]),
 ("C05", "Loading and cleaning up leave tight, snugly nested tiers",
  "After loading, and after cleaning up, every tier of every tier group is without gaps, overlaps and empty intervals, all tiers of "
  "all tier groups span the same time, and the subset list of every interval is non-empty and exactly fills it, down to the lowest "
  "tier of the group. Cleaning up again changes nothing.",
  [I, H], "textgrids with arbitrary gaps, overhangs and mismatched boundaries within and between tiers and groups, and histories of "
  "edits that open gaps, followed by cleanup",
  "Tests clean up three hand-made cases.",
  [ATG, TIER, SEQ], [("filling gaps", ATG + " cleanup; " + TIER + " SequenceTier.cleanup, TierGroup.cleanup, _project_up; " + SEQ + " cleanup"),
                     ("trimming mismatches", TIER + " TierGroup.__init__")]),
 ("C06", "Repairing a textgrid is conservative",
  "Loading or cleaning up keeps every interval that was there, with its label, its position among the others and its superset by "
  "greatest overlap, and keeps its times except where a boundary of a tier and of the tier below it do not agree, in which case "
  "it is only ever trimmed. Whatever is added is blank and lies where there was nothing. A tidy textgrid and all points come "
  "through untouched.",
  [I], "textgrids with arbitrary gaps, overhangs and mismatched boundaries", "Tests look at the number of intervals after one cleanup.",
  [ATG, TIER, SEQ], [("gap filling and trimming", ATG + " cleanup; " + TIER + " TierGroup.__init__, cleanup; " + SEQ + " cleanup")]),
 ("C07", "Looking up a time finds the entry at that time",
  "Looking up a time in a tier of non-overlapping intervals gives the index of the interval that starts at or before it and ends "
  "after it, or None when there is none; in a point tier, the index of a nearest point. Groups and textgrids give the same, one "
  "per tier, and indexing with the result gives those entries; looking up from a point gives the interval at its time, or None.",
  [I, H], HIST + "; query times inside, outside, exactly on and one float away from boundaries",
  "Tests query a few times well inside of intervals.",
  [TIER, PTT, PT, ATG], [("lookup", TIER + " get_interval_at_time, get_intervals_at_time; " + PTT + " get_nearest_point_index; " + PT +
                          " get_interval_at_point; " + ATG + " get_intervals_at_time, __getitem__")]),
 ("C08", "Fusing two intervals conserves time, labels and subsets",
  "Fusing an interval with its following or previous neighbour leaves one interval that spans both, with both labels joined in "
  "time order by the given function and the subset intervals of both in order, in the place of the two in its tier and superset; "
  "the absorbed interval is gone from them, and nothing else changes. At an edge, fusing raises an exception.",
  [H, I], "tier groups of 1-4 tiers and free-standing intervals, sequences of fusions in either direction at any tier, with default "
  "and given label functions", "Tests fuse one pair at a time in two-tier textgrids.",
  [SEQ, TIER], [("fusion", SEQ + " fuse_rightwards, fuse_leftwards"), ("removal from tier and superset", TIER + " pop; " + SEQ + " remove_from_subset_list")]),
 ("C09", "Shifting moves every time by the increment and nothing else",
  "Shifting a textgrid or group by an amount adds that amount to every start, end and point time in it exactly once, and leaves "
  "labels, order, durations, relations, names and other groups as they were; shifting back restores the times.",
  [I, H], HIST + "; positive, zero and negative amounts, repeated", "Tests shift one textgrid and compare the first and last times.",
  [ATG, TIER, PTT, SEQ], [("shifting", ATG + " shift; " + TIER + " shift, _shift; " + PTT + " shift, _shift; " + SEQ + " _shift; " + LIST + " _shift")]),
 ("C10", "Interleaving a class adds one tier like its neighbour",
  "Interleaving a class above or below an existing one gives every group that has that class one new tier at that place in the "
  "hierarchy, with the times (and, if asked for, the labels, otherwise blank ones) of the tier it takes its timing from, related to "
  "the tiers above and below. All other tiers, groups, names, entries and point tiers stay as they were. Popping the new class "
  "restores the textgrid.",
  [H, I], "tidy textgrids of 1-3 groups with own or shared hierarchies of 1-4 classes, sequences of interleavings by name or class, "
  "above or below, timing from above or below", "Tests interleave once into a two-tier textgrid and check class names.",
  [ATG, CC, TIER], [("interleaving", ATG + " interleave_class")]),
 ("C11", "Popping a class removes its tiers and joins the levels around it",
  "Popping a class removes its tier from every group that has it, relates the tiers above and below it by time directly to each "
  "other (or makes the next tier the top or bottom one), and leaves all other tiers with their entries, all other groups, and all "
  "names as they were. A group that had only that class is removed; a class that is not there changes nothing.",
  [H, I], "tidy textgrids of 1-3 groups with own or shared hierarchies of 1-4 classes, sequences of pops and interleavings",
  "Tests pop one class from one fixed textgrid.",
  [ATG, TIER], [("popping", ATG + " pop_class")]),
 ("C12", "What is done to one textgrid does not show in another",
  "Textgrids made from separate data but the same entry classes are independent: loading, building or editing one, including "
  "interleaving and popping classes, changes neither the entries, relations, names or classes of the other nor the class hierarchy "
  "it was made from, so that a later textgrid made with those classes is as if the edits had never been. Containers made without "
  "arguments, or from the same list, share nothing either.",
  [H, "configurations"], "pairs of textgrids over shared built-in or custom classes, and histories of edits to one of them",
  "Tests make fresh classes for most textgrids and do not look at a second one after edits.",
  [ATG, CC, TIER, PTT], [("every textgrid works on clones of the classes", ATG + " _reclone_classes, _swap_classes; " + CC + " clone_class")]),
 ("C13", "Custom classes have the hierarchy and order asked for",
  "Making custom classes from a list of names gives one new class per name, with those names, linked from the first (top) to the "
  "last (bottom) and to nothing else, returned in the order asked for by names or positions; those asked for as points are point "
  "classes outside of the hierarchy. Cloning a class copies its whole hierarchy without touching the original, and linking two "
  "classes is mutual.",
  [I, "configurations"], "1-6 names, including names containing Top or Bottom, every return order, and any set of point classes",
  "Tests use three or four fixed lists of names.",
  [CC, SEQ], [("making and cloning classes", CC + " custom_classes, clone_class, get_class_hierarchy"),
              ("mutual linking", SEQ + " set_superset_class, set_subset_class")]),
 ("C14", "Sequence lists are always sorted, free of repeats and of one class",
  "A sequence list of intervals or points is sorted by time after any sequence of constructing, appending, adding, concatenating, "
  "shifting, removing and popping; it holds exactly the entries put in and not taken out, each once, all of one class; its times "
  "and labels are those of its entries. Concatenating moves the new entries to after the end of the list. Adding intervals warns "
  "exactly when some of the intervals then in the list overlap in time.",
  [H], "sequences of up to 10 operations on lists of intervals or points, with unsorted input and entries starting at 0",
  "Tests append and concatenate sorted entries once.",
  [LIST], [("sorting and membership", LIST + " _sort, append, __add__, concat, __contains__, remove, pop")]),
 ("C15", "Paths, ids and named accessors lead to what they name",
  "Following the path of indices of any tier, interval or point down from its textgrid leads back to that object, ids are these "
  "paths and are unique, and every object is within the container that holds it, after any history. Groups are reachable from the "
  "textgrid by their names and tiers from their group by their class names, always the present objects, and names that were given "
  "to groups and tiers persist; a group without a given name is named after what its tier names have in common.",
  [H], HIST, "Tests check paths and accessors on a freshly loaded file.",
  [WITHIN, ATG, TMIX, TIER], [("within relations", WITHIN), ("named accessors", ATG + " _set_group_names; " + TMIX + " _set_tier_names, make_name")]),
 ("C16", "Building up piece by piece equals loading at once",
  "A textgrid put together through appending, from entries to intervals, tiers, groups and textgrid, in any order of pieces and "
  "levels, has the same entries, relations, precedence, names and extents as one loaded at once from the same data.",
  [H, I], "textgrids of 1-3 groups of 1-4 tiers with point tiers, put together in generated orders through different public routes",
  "Tests append one or two pieces in one order.",
  [TMIX, SEQ, TIER, PTT, ATG], [("appending", TMIX + " TierMixins.append, TierGroupMixins.append; " + SEQ + " append; " + ATG + " append")]),
 ("C17", "Concatenating and adding unite two pieces without loss",
  "Concatenating a tier or group onto another of the same classes leaves the first as it was and puts every entry of the second "
  "after it, in order, with its label, duration and relations, shifted by the end of the first exactly once. Adding two tiers or "
  "groups that do not overlap in time gives one with the entries of both, unshifted and in time order, whichever comes first.",
  [I, H], "pieces of 1-4 tiers or 1-3 point tiers, free-standing or within a textgrid, concatenated up to three times",
  "Tests concatenate two two-word groups.",
  [TMIX, LIST, TIER, PTT], [("concatenation and addition", TMIX + " concat, __add__; " + LIST + " concat, __add__")]),
 ("C18", "Data frames have every entry, value and relation",
  "The data frame of an entry, tier, group or textgrid has, with subsets, one row per lowest interval with the id, tier index, "
  "label and times of it and of every interval above it (and one row per point), and without subsets one row per entry, in order "
  "and with the group's name where there is a group. Making it changes nothing, it does not depend on whether times are integers "
  "or floats, and anything else than these objects raises ValueError.",
  [I, H], HIST + "; and free-standing entries, tiers and groups, with and without subset lists",
  "Tests compare numbers of rows for one file.",
  [DF], [("row building", DF + " sequence_to_df, tier_to_df, tiergroup_to_df, textgrid_to_df")]),
 ("C19", "A pickled textgrid comes back the same and as usable",
  "A textgrid, group, tier or entry that is pickled with cloudpickle and read back, in the same or another process, has the same "
  "entries, relations, precedence, names, ids and classes, at the same place in its textgrid, and can be edited with the same "
  "effect as the original. Pickling, reading back and editing the copy leave the original as it was.",
  [H, I], HIST + "; pickled as a whole or in part, edited further in another process", "One test asserts that pickling one file gives something true.",
  [ATG, TIER, CC], [("state setting", ATG + " __setstate__; " + TIER + " __setstate__")]),
 ("C20", "Points: order, neighbours, distances and extents follow the times",
  "A point tier holds its points in time order whatever order they were given in, and neighbours, distances to them, distances "
  "from points and intervals, nearest points, and the extents of tiers and groups follow the present times, after any sequence of "
  "appending, concatenating, moving, shifting and re-making. Distances at the edges are None.",
  [H, I], "1-3 point tiers of up to 8 points given out of order, free-standing, grouped or in a textgrid; up to 5 edits",
  "Tests use one fixed list of points, with no point at time 0 and no edits.",
  [PT, PTT, MIX], [("points and their tiers", PT + " fol_distance, prev_distance, distance_from; " + PTT + " get_nearest_point_index, xmin, xmax, times")]),
 ("C21", "Refused operations leave the textgrid as it was",
  "An operation that cannot be done — an entry, tier or group of the wrong kind, class or size, a class that cannot be "
  "interleaved, an index list or list of times of the wrong length, fusing at an edge, a label function that fails, an entry "
  "that is not there — raises an exception, and afterwards every entry, relation, class, name and accessor of the textgrid is as "
  "it was before.",
  [H, "fault_sequences"], "textgrids after edits, each given up to 8 of some 65 kinds of calls that must be refused",
  "Tests check that some of these raise, and not what they leave behind.",
  [TMIX, SEQ, TIER, ATG, MIX, LIST], [("argument checks before changes", TMIX + "; " + SEQ + "; " + ATG + " interleave_class; " + LIST)]),
 ("C22", "PoLaR: levels, turning points, ranges and labels are read right",
  "In a PoLaR textgrid a level and a turning point at the same time are each other's, and one without a counterpart has none; each "
  "level lies in the ranges interval at its time and has the band of five that its number says. Certainty, prominence or edge, "
  "override values and f0 ranges are read from the labels as documented, and groups and tiers are reachable under their documented "
  "names whatever their order.",
  [I, "configurations"], "PoLaR textgrids with generated points, levels, ranges (with gaps and unreadable labels) and orders of groups and tiers",
  "Tests read one file and check types.",
  [PC, PG], [("relating levels, points and ranges", PG + "; " + PC)]),
 ("C23", "Validation says exactly whether subsets fill their superset",
  "Validating an interval gives True if it has no subset intervals or they begin and end with it and meet without gaps or overlaps, "
  "and False otherwise, and changes nothing. Cleaning up an interval whose subset intervals lie inside it without overlaps adds "
  "blank ones exactly where it is not filled, after which it is valid; one without subset intervals gets one of its length at every level down to "
  "the lowest class.",
  [I], "an interval with 0-6 subset intervals, exactly filling it or with gaps, overlaps and overhangs", "Tests validate five hand-made intervals.",
  [SEQ], [("validation", SEQ + " validate, cleanup")]),
 ("C24", "Containers are ordered sequences that agree with their members",
  "Textgrids, groups, tiers, intervals and sequence lists read the same by length, index, negative index, iteration (also two at "
  "once), membership and position of a member. Starts, ends, times, labels, durations, first and last, extents, tier names and "
  "entry classes agree with the members at all times, and times set through a tier or an entry are read back everywhere.",
  [H, I], HIST, "Tests read a few containers in one way each.",
  [ATG, TIER, PTT, SEQ, LIST, TMIX, MIX], [("views computed from members", TIER + " starts, ends, xmin, xmax; " + SEQ + " __iter__, sub_starts; " + ATG + " tier_names, xmin")]),
 ("C25", "Asking a textgrid about itself changes nothing",
  "Displaying, iterating, comparing, looking up, validating, exporting, saving, copying, pickling a textgrid, group, tier or entry, "
  "or making a data frame of it, leaves every entry, time, label, relation, neighbour, class, name, id and accessor of the textgrid "
  "as it was, and asking again, in any order, gives the same answer.",
  [H], HIST + "; then up to 4 batches of up to 50 questions each", "Tests ask each question once, of an object they then throw away.",
  [ATG, TIER, PTT, SEQ, MIX, WITHIN, DF], [("questions", ATG + " return_textgrid, save_textgrid, get_intervals_at_time, __getitem__; " + DF +
                                           " to_df; " + SEQ + " validate, __iter__; " + PT + " distance_from")]),
 ("C26", "Entries, tiers and groups are the same whatever their data comes as",
  "An interval or point made from a tuple, list, praatio Interval or Point, or another entry of any class has the times and label "
  "given, the class asked for, no tier, superset or subset intervals, and boundaries for neighbours; what it was made from stays as "
  "it was, and does not follow later changes; values beyond start, end and label (time and label) are refused. A tier made from "
  "entries in any order, praatio entries, a praatio tier, a sequence list or another tier holds exactly those entries in time order, in a list of "
  "its own, keeping a given tier's name (and otherwise that of the class), and entries already of the class are the very objects given. A "
  "group made from another group has its tiers and its name.",
  [I, "configurations"], "2-9 entries with gaps, any order, seven forms of entry data, seven of tier data, base, custom, ready-made and "
  "derived classes of intervals and points",
  "Tests make entries and tiers from one form each.",
  [SEQ, PT, TIER, PTT], [("taking entry data apart", SEQ + " SequenceInterval.__init__; " + PT + " SequencePoint.__init__"),
                         ("making tiers", TIER + " SequenceTier.__init__; " + PTT + " SequencePointTier.__init__")]),
]
NOTE = {
 "C19": " Reads back in a second process.",
}

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for pid, title, stmt, over, qt, why, files, mech in P:
        assert len(title) <= 80, (pid, len(title))
        f.write(json.dumps(dict(id=pid, title=title, statement=stmt, quantifier=dict(over=over, text=qt), why_tests_cant=why,
                                anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                                             observe_at=["public API"], hook_needed=None)), ensure_ascii=False) + "\n")
man = dict(version=1, setup_cmd="python3 -c 'import os; os.makedirs(\"evidence\", exist_ok=True)'", checks=[
    dict(property=p[0], quick_cmd=f"python3 check.py {p[0]} --tier quick", thorough_cmd=f"python3 check.py {p[0]} --tier thorough",
         technique="property-based testing (Hypothesis): generated inputs and histories against an explicit oracle, with shrinking",
         level="exploration",
         level_note="Held on every generated case (numbers and classes in the evidence); sizes bounded as in the quantifier; "
                    "trusts the oracle in harness/props/%s.py and Hypothesis." % p[0].lower() + NOTE.get(p[0], ""))
    for p in P], not_applicable=[])
json.dump(man, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
