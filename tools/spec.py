#!/usr/bin/env python3
"""Single source of properties.jsonl, MANIFEST.json and meta.json.
Run from anywhere: tools/spec.py   (rewrites the three files)"""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
IO = "src/iges/iges.cpp"
P = []   # properties in order


def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None, quick=45, thorough=780, level="exploration", note="", assume=(), stub=None, real=None, check=True, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, state=state, observe=observe,
                  quick=quick, thorough=thorough, level=level, note=note, assume=list(assume), stub=stub, real=real, check=check, na=na))


prop("W01", "An acknowledged save is complete",
     "When saving a document reports success, the file on disk holds the complete document, byte for byte what the same save produces on a disk that never misbehaves. Interrupted system calls and partial transfers are absorbed and never make a save fail or damage its output; a save only reports failure when some system call really failed, and every file it opened is closed again.",
     ["fault_sequences", "inputs", "histories"], "every document, every sequence of open/write/close errors, short writes, interrupted calls and device-full points during any number of saves of the same document",
     "The tests only ever save to a healthy disk and do not look at the return value against the bytes; no test can make the n-th write or the close fail.",
     [IO, "src/iges/iges_io.cpp"], [("stream state checked after every section and after close", "src/iges/iges.cpp: IGES::Write, writeStart, writeGlobals, writeDE, writePD")],
     note="reference: an identical document saved without faults on the same simulated disk")
prop("W02", "A failed save leaves the document in memory unharmed",
     "When a save fails for any reason, the document in memory is unchanged: as soon as the disk works again, saving the same object produces exactly the file that would have been produced had the failure never happened.",
     ["fault_sequences", "histories"], "every document and every sequence of failing saves (open, write, close errors, full disk) followed by a retry",
     "No test injects a failing save, let alone saves again afterwards.",
     [IO, "src/entities/iges_entity.cpp"], [("formatted parameter data discarded after every save, successful or not", "src/iges/iges.cpp: IGES::Write, unformat; entity unformat()")],
     note="every failing save is followed by a retry compared byte for byte with an undisturbed twin")
prop("W03", "Saving without overwrite permission never harms an existing file",
     "A save that was not given permission to overwrite never changes, truncates or replaces a file that already exists under that name, whether or not that file can be opened for reading and also when another process creates it while the save is starting; such a save reports failure, and no save ever touches a file other than the one it was given.",
     ["schedules", "fault_sequences", "inputs"], "every state of the target (absent, present, empty, unreadable, read-only) and every interleaving of another process creating it with the library's own open calls",
     "Tests save to fresh paths only; the race between looking for the file and creating it cannot be scheduled by a test.",
     [IO], [("exclusive creation of the target", "src/iges/iges.cpp: IGES::Write")],
     note="the other process is a scheduled event at each open call of the simulated disk")
prop("W04", "What a crash leaves behind is never mistaken for another document",
     "If the process or machine dies while a file is being saved, whatever prefix of the output (with or without lost blocks) survives is either refused when it is read, or it is read as exactly the document that was being saved; it is never accepted as a different, truncated document.",
     ["crash_points", "inputs"], "every document, every write call and every byte inside it at which the machine can stop, with and without blocks whose data was lost",
     "No test interrupts a save or reads an incomplete file.",
     [IO], [("section order, record counts and mandatory terminate section checked while reading", "src/iges/iges.cpp: IGES::Read, readGlobals, readDE, readPD, readTS")],
     note="crash at every write call and byte offset drawn by seed; durable state = surviving prefix, optionally with zeroed blocks")
prop("R01", "A failed load leaves an empty, reusable document",
     "Loading a file either delivers the whole document and reports success, or reports failure and leaves the object empty, with no file left open; it never reports success for a file it could only read in part. Afterwards the same object loads any valid file exactly as a fresh object would, and a load refused because the object already holds a document changes nothing.",
     ["fault_sequences", "histories", "inputs"], "every sequence of loads into one object under open and read errors at any call, truncated and missing files, interleaved with successful loads",
     "The tests load a handful of good files into fresh objects; none injects a read error or reuses an object after a failure.",
     [IO], [("document cleared on every failing path of a load", "src/iges/iges.cpp: IGES::Read, IGES::Clear")],
     note="comparison with twins that were never exposed to a fault")
prop("R02", "No file, however damaged, brings the reader down",
     "Whatever bytes a file contains, loading it comes back with success or failure: it never crashes, never reads or writes memory it does not own, never loops for ever, never lets an exception escape and never asks for unbounded memory. A refused file leaves nothing behind; a damaged file that is accepted can be saved as a well-formed file and be destroyed without harm; and the object, and every other document in the process, then work as if the damaged file had never been seen.",
     ["inputs", "fault_sequences", "histories"], "every file, in particular every file derived from a valid one by corrupted bytes, lost, duplicated or reordered lines, truncated records, inconsistent counts, and pointers redirected to missing, wrong, repeated or cyclic targets",
     "The tests read well-formed files only.",
     [IO, "src/iges/iges_io.cpp", "src/entities/*.cpp"], [("validation of records, counts and pointers while reading", "src/iges/iges.cpp: readDE, readPD; src/entities/*.cpp: readDE, readPD, associate"), ("unlinking of partial associations on destruction", "src/entities/iges_entity.cpp: ~IGES_ENTITY, unlink, delReference")],
     note="the disk corrupts files under the reader; the run is instrumented for memory errors and limited in memory and processor time")
prop("R03", "The meaning of a file does not depend on its layout or its arrival",
     "Two files that express the same document with different but equally valid layout (number notation, line wrapping, strings split over lines, blanks, omitted defaults, line endings, unsupported entities in between) load to the same document, and how the operating system delivers the bytes (any partition into short reads, interrupted calls) has no influence.",
     ["inputs", "schedules"], "every document, every pair of conforming layouts, every partition of the file into read results",
     "The repository's sample files come from two exporters and are read in one piece; the space of conforming layouts is unbounded.",
     [IO, "src/iges/iges_io.cpp", "src/entities/*.cpp"], [("free-format parameter parsing", "src/iges/iges_io.cpp: ParseInt, ParseReal, ParseHString, ReadLine")],
     note="the documents are written by an independent exporter with random layout; loads are compared through what a save produces")
prop("M01", "A document survives being loaded and saved",
     "Loading a valid file and saving it keeps every entity that belongs to the document with its type, attributes, parameters (to the precision the format promises), references, names and comments, in order, together with the start section and the global parameters that describe the document (the number ranges are those of the platform which writes it); only dependents nothing refers to are dropped. What has been saved once is a fixed point: loading it and saving again gives the same bytes.",
     ["inputs"], "every document built from the supported entity types with arbitrary attributes and arbitrary sharing of dependents",
     "The tests build one small entity each and compare a few values; combinations of attributes, sharing, long records and the second generation are not reached.",
     [IO, "src/entities/*.cpp", "src/iges/iges_io.cpp"], [("per-entity readDE/readPD/associate and format/writeDE/writePD", "src/entities/*.cpp"), ("fixed-field and free-format conversion", "src/iges/iges_io.cpp")],
     note="oracle: an independent model, exporter and strict parser of the file format that share no code with the library")

prop("M05", "Units and model scale never change the size of a model",
     "Whatever unit and model scale a file declares, and however often a document is converted to another unit or model scale, saved and loaded again, every length, coordinate, resolution and line width in it denotes the same physical size as before, while angles, directions, weights, knots and curves in the parameter space of a surface keep their values; the file declares the unit it uses consistently by flag and by name. Invalid units and scales are refused without any effect.",
     ["inputs", "histories"], "every document in every unit and model scale and every sequence of conversions, saves and loads",
     "The tests never convert a document; which of the hundred-odd parameters are lengths is decided separately in every entity type.",
     [IO, "src/entities/*.cpp"], [("normalisation while loading; ConvertUnits; ChangeModelScale", "src/iges/iges.cpp: readGlobals, Read, ConvertUnits, ChangeModelScale"), ("per-entity rescale", "src/entities/*.cpp: rescale")],
     note="oracle: an independent table of the dimension of every parameter; comparison of parsed saves with relative tolerance")

prop("W05", "An acknowledged save of a document built through the interface is well-formed and says what the document says",
     "However a document was built and edited through the programming interface, a save that reports success has written a file that obeys every structural rule of the IGES fixed format and that contains every entity of the document exactly once, with the attributes, values, comments, start section and global parameters that were last set and with every reference leading to the entity that was associated; the getters report the same. Calls the library refuses change nothing, and the library accepts its own output.",
     ["histories", "inputs", "fault_sequences"], "every sequence of creating entities, associating them, setting and editing attributes and values, refused calls, unit and scale changes, deletions and (failing or successful) saves over several documents",
     "The tests build one small document per entity type in one fixed order and save it once.",
     [IO, "src/entities/*.cpp"], [("sequence numbering and formatting of all entities during a save", "src/iges/iges.cpp: IGES::Write; src/entities/*.cpp: format, writeDE, writePD"), ("attribute and value setters", "src/entities/iges_entity.cpp; src/entities/*.cpp")],
     note="oracle: executable reference model of the documents compared after every call, and an independent strict parser for the files")
prop("M02", "Associations are always mutual and never lead to a deleted entity",
     "At every moment each reference held by a live entity leads to a live entity of the same document, every entity knows exactly the parents that refer to it, and validity flags tell truthfully which entities and documents are still alive. Deleting an entity (through the document or directly), replacing or removing an association, clearing or destroying a document removes exactly the associations concerned; nothing else changes, nothing is deleted twice and nothing is forgotten.",
     ["histories"], "every sequence of creating, associating, re-associating, moving, deleting, culling, clearing and destroying over several documents with arbitrary sharing of children",
     "The tests delete an entity or two from hand-made pairs; the interplay of several parents, several kinds of reference and repeated edits is unbounded.",
     ["src/entities/*.cpp", IO], [("back references", "src/entities/iges_entity.cpp: addReference, delReference, ~IGES_ENTITY"), ("per-entity unlink and setters", "src/entities/*.cpp: unlink, Set*, Add*, Del*, Clear*"), ("validity flags", "AttachValidFlag, DetachValidFlag")],
     note="oracle: executable reference model; every run is instrumented for memory errors")
prop("M03", "Culling removes what is orphaned and nothing else",
     "Culling, explicit or implied by a save, deletes exactly the entities that nothing needs: dependents without a parent, helpers without a user, and entities that have lost a part they cannot exist without, followed transitively. Everything that stands on its own or is reachable from something that does stays, with all its associations; the aggressive mode additionally removes only unreferenced entities other than subfigure instances. Culling twice changes nothing more.",
     ["histories", "inputs"], "every document, built through the interface or loaded, after every history of edits and deletions",
     "Which entities are orphaned depends on the whole reference graph and on the order of deletions; the tests cull tiny hand-made graphs.",
     [IO, "src/entities/*.cpp"], [("cull to a fixed point", "src/iges/iges.cpp: IGES::Cull"), ("orphan rules", "src/entities/*.cpp: isOrphaned")],
     note="oracle: least fixed point computed on the reference model's graph; exact for ordinary culling, lower and upper bound for the aggressive mode")
prop("M04", "Exporting a document into another conserves everything",
     "Exporting one document into another moves every entity of the source into the destination exactly once, keeps all values (expressed in the destination's unit and scale), attributes and associations, and returns one new subfigure definition that belongs to the destination and holds exactly the top level parts; the source is left empty and reusable. When there is nothing to package, or the call is invalid, no entity moves. Names made up for exported parts are never handed out twice.",
     ["histories", "inputs"], "every sequence of exports between several documents with different units, scales and line weight gradations, mixed with edits, deletions, saves and reuse of the emptied source",
     "The tests export one part into one empty document.",
     [IO], [("transfer and packaging", "src/iges/iges.cpp: IGES::Export"), ("generated names", "src/iges/iges.cpp: GetNewPartName, GetNewAssemblyName")],
     note="oracle: executable reference model; entities that came from a file are located through the returned subfigure")

prop("T01", "Time stamps are the time of the save, in UTC, and nothing else depends on the clock",
     "Every acknowledged save stamps the file with a modification date that the system clock really showed during that save, expressed in UTC whatever the time zone, in the fixed calendar format; a valid creation date is kept and a missing one is filled in the same way. Nothing else in the file, and no decision of the library, depends on the clock, even when it steps backwards, jumps or stands still, and the library accepts every date it has written.",
     ["schedules", "histories"], "every sequence of clock readings (steps backwards, jumps across days, months, years and leap days), every time zone, every sequence of saves and loads",
     "The tests run in one time zone with the real clock and never look at the date.",
     [IO], [("time stamps in the global section", "src/iges/iges.cpp: writeGlobals"), ("validation of dates", "src/iges/iges.cpp: readGlobals")],
     note="the simulated clock records every reading; the time zone is drawn by seed")
prop("L01", "Neither the language of the user nor that of the process leaks into files",
     "Whatever locale the process and the C++ streams are set to (decimal commas, digit grouping, other digits), loading, editing, converting and saving behave exactly as in the C locale: the same results and the same bytes. No call changes the locale of the process.",
     ["inputs", "histories"], "every document and history under every locale setting of the process and of the streams",
     "The tests run in the C locale only; a decimal comma would separate two parameters and change the meaning of every number.",
     [IO, "src/iges/iges_io.cpp", "src/entities/*.cpp"], [("locale-independent number formatting and parsing", "src/iges/iges_io.cpp: FormatPDREal, ParseReal; src/iges/iges.cpp: Read, Write")],
     note="the same seeded history is executed under both settings and the complete traces are compared")
prop("D01", "The same history always gives the same result",
     "What a document does depends only on the calls made on it, the files it reads and the clock: the same history gives the same results and the same bytes whatever else happens in the process, in particular whatever other documents do in between (also on other threads), wherever the memory allocator places objects and whatever uninitialised memory contains.",
     ["schedules", "histories", "inputs"], "every history, every interleaving with histories of unrelated documents down to single system calls, every placement of objects in memory and every content of fresh memory",
     "Ordinary runs always see the same allocator and run one document at a time.",
     [IO, "src/entities/*.cpp", "src/iges/iges_io.cpp"], [("no shared mutable state between documents", "src/iges/*.cpp"), ("ordering of children and entities by position, not address", "src/entities/*.cpp; src/iges/iges.cpp")],
     note="a scheduler hands a baton between two threads at operation and system call boundaries; traces are compared with a solitary run")

prop("H01", "Handles follow the life of the objects they refer to",
     "Through every sequence of API calls a handle (DLL_IGES, DLL_IGES_ENTITY_*, DLL_MCAD_*) is valid exactly as long as the object it refers to exists, whoever deletes that object: another handle, its document, a cull, a save, or the C++ interface behind the handles. Calls through a valid handle act on exactly that object and several handles of one object always agree; calls through an invalid handle fail and have no effect. Creating, attaching, detaching and destroying handles never deletes or alters an entity, a document entity only goes away with its document, by an explicit deletion or as an orphan, and geometry handles delete their object only while they own it.",
     ["histories", "fault_sequences", "inputs"], "every interleaving of creations, attachments, detachments, deletions, transfers between documents, associations, saves (also failing ones) and exports through any number of handles and documents",
     "A test follows one handle through a straight life; the harm of a stale handle or of a double owner only shows in particular orders of destruction.",
     ["src/dllapi/*.cpp", "src/iges/iges.cpp", "src/geom/mcad_outline.cpp", "src/geom/mcad_segment.cpp"], [("validity flags registered by every handle and cleared by the object's destructor", "src/dllapi/dll_iges_entity.cpp; src/entities/iges_entity.cpp: AttachValidFlag, ~IGES_ENTITY; src/iges/iges.cpp; src/geom/mcad_outline.cpp; src/geom/mcad_segment.cpp")],
     note="a reference model of objects, owners and values is compared with every handle after every call; memory errors are detected by instrumentation")

prop("I01", "The board converter reports what it has really done",
     "idf2igs exits with success only if the model it was asked for is on disk complete, byte for byte what it writes when nothing goes wrong. It exits with failure only when some system call really failed or its input is unusable, leaves an existing file untouched unless it had already begun to write the new model, never changes its input files or creates others, and closes every file it opened.",
     ["fault_sequences", "inputs"], "every valid board and library and every sequence of open, read, write and close errors, short transfers, interrupted calls and device-full points during a conversion",
     "The tests convert a few boards on a healthy disk.",
     ["src/idf/idf2igs.cpp", "src/idf/idf_parser.cpp", "src/idf/idf_helpers.cpp", IO], [("exit status", "src/idf/idf2igs.cpp: main"), ("stream state of the input files", "src/idf/idf_helpers.cpp: FetchIDFLine")],
     note="reference: the same conversion on a disk without faults")
prop("I02", "A valid board is converted to the assembly it describes",
     "For every valid IDF board and library, idf2igs produces an assembly whose board, extrusions and component bodies have exactly the outlines, thickness, holes and cutouts the board describes (in its units) and whose faces all look away from the material, with every component instance on the right side at the right place, rotation and offset, each body converted once and shared, and holes and cutouts that overlap each other or the edge merged into the correct remaining material.",
     ["inputs", "histories"], "every valid board: outlines of lines, arcs and circles in either direction, any number of cutouts and overlapping drills, placements on both sides with rotations and offsets, both units, with or without library",
     "The tests only look at whether some conversion succeeds; nothing checks where the walls and bodies are.",
     ["src/idf/*.cpp", "src/geom/*.cpp"], [("outline operations", "src/geom/mcad_outline.cpp; src/geom/mcad_segment.cpp"), ("solid model of the board", "src/idf/idf2igs.cpp"), ("parser", "src/idf/idf_parser.cpp")],
     note="oracle: the written model is read by an independent reader and compared with a point-membership model of the board")
prop("I03", "No board file, however damaged, brings the converter down",
     "Whatever bytes an IDF board or library contains, the converter comes back with success or failure and never crashes, hangs or lets an exception escape. If it claims success the model is well-formed and can be loaded; if it refuses, an existing model is untouched; and a later conversion in the same process gives what it would have given otherwise.",
     ["inputs", "fault_sequences", "histories"], "every board and library file, in particular every one derived from a valid one by damaged bytes, lost, duplicated, swapped or truncated lines, altered tokens and numbers",
     "The tests use well-formed boards.",
     ["src/idf/*.cpp", "src/geom/*.cpp"], [("validation while parsing", "src/idf/idf_parser.cpp; src/idf/idf_outlines.cpp; src/idf/idf_helpers.cpp")],
     note="the disk corrupts the files under the parser; memory errors are detected by instrumentation, processor time is limited")

prop("G01", "An outline is what its history of operations made it",
     "However lines, arcs and circles are added to an outline and closed outlines and circles are then merged with it, subtracted from it or cut out of it: an operation whose argument crosses the outline properly at exactly two points succeeds, and the result is exactly the union or the difference, a closed contiguous counterclockwise boundary whose arcs report consistent angles; an operation without a crossing, with more than two, or with an open or invalid argument is refused, changes neither outline nor argument and leaves the argument with the caller; cutouts clear of the boundary are kept or merged with the one cutout they cross. Whether a point is inside is answered correctly everywhere off the boundary, also level with corners; two segments meet where they cross, and a segment divided there is the same segment in parts, in order; a segment cannot be divided at points which are not on it.",
     ["histories", "inputs"], "every closed shape of lines and arcs, either orientation, and every sequence of merge, subtract, cut and query operations, also through corners",
     "The geometry tests print a few fixed shapes; almost none of the combinations of segment kinds, orientations and crossing positions occur.",
     ["src/geom/mcad_outline.cpp", "src/geom/mcad_segment.cpp", "src/geom/mcad_helpers.cpp"],
     [("splitting and stitching of outlines", "src/geom/mcad_outline.cpp: opOutline, AddSegment, AddCutout"), ("membership", "src/geom/mcad_outline.cpp: IsInside"), ("intersections and splits", "src/geom/mcad_segment.cpp: checkLines, checkArcLine, checkArcs, checkCircles, split*")],
     note="one client's history against an executable reference of plane geometry; the faults are requests that must be refused, between and instead of those that succeed",
     assume=["touching without crossing and features closer than 0.002 mm (other than exact corners) are not generated; the documented limit of two crossings per operation stands; shared edges are generated for straight edges of the argument lying on one edge of the outline"])

prop("G02", "Every surface built is exactly the one that was asked for",
     "Whatever outline (lines, arcs and circles in either direction, with holes and cutouts), segment, arc or quadrilateral the solid model builders are given, in whichever document, after whatever other calls and through the C++ interface or the handles: the trimmed surfaces handed out are bounded by exactly that figure at exactly the heights asked for - boundaries closed, both of their representations and the surface in agreement, the walls of a solid without gap or overlap - face away from the material (or the way asked for), have all their parts marked as depending on them, can be loaded again, and nothing is left in the document which does not belong to what was handed out. Calls that cannot be served (no or an open outline, no height, no radius, two radii, no document, no data) are refused and leave the document and the caller's lists unchanged.",
     ["histories", "inputs"], "every outline with any holes and cutouts, every arc whatever its start, sweep and direction, every convex quadrilateral, every order of builder calls on up to two documents with saves and reloads in between",
     "The tests build a few boards and curves and look only at whether the calls succeed; nobody evaluates the surfaces, their boundaries or their orientation.",
     ["src/geom/iges_geom_pcb.cpp", "src/geom/geom_cylinder.cpp", "src/geom/geom_wall.cpp", "src/dllapi/dll_iges_geom_pcb.cpp"],
     [("walls and planes of an outline", "src/geom/iges_geom_pcb.cpp: GetVerticalSurface, GetTrimmedPlane, GetCurves, GetCurveOnPlane, GetSegmentWall"), ("bands above arcs, divided at the axes", "src/geom/geom_cylinder.cpp: SetParams, Instantiate"), ("quadrilaterals", "src/geom/geom_wall.cpp")],
     note="the documents are written to the simulated disk and read by an independent reader which evaluates surfaces and curves; one client's history, the faults are failing saves and requests that must be refused",
     assume=["figures with features smaller than 0.01 mm and outlines crossing themselves are not generated"])

prop("I04", "A board which is read, edited and written is the board which was asked for",
     "Reading a valid IDF 2 or 3 board and library gives the board they describe, in millimetres whatever their unit; every edit through the interface that ownership and the arguments allow takes effect as documented and every other one is refused and changes nothing; and what WriteFile puts into the two files is, in the unit asked for, exactly the edited board: every outline with owner, side, height and winding, every hole, note, comment, property, placement and body offset, no library part more or less than the placements use. A file written by the library is accepted by it and is the same board again.",
     ["inputs", "histories"], "every valid board and library in any layout and unit, IDF 2 and 3, MCAD and ECAD users, with components of several bodies on both sides, followed by any sequence of edits, saves and reloads",
     "No test writes a board with the library, and the interface for editing boards is not tested at all.",
     ["src/idf/idf_parser.cpp", "src/idf/idf_outlines.cpp", "src/idf/idf_common.cpp", "src/idf/idf_helpers.cpp"],
     [("sections and placements", "src/idf/idf_parser.cpp: readBrdSection, readPlaceData, writePlaceData, writeBoardFile, writeLibFile"), ("outline records", "src/idf/idf_outlines.cpp: readData, writeData, readOutlines, writeOutlines"), ("ownership", "src/idf/idf_outlines.cpp: CheckOwnership; src/idf/idf_parser.cpp: checkComponentOwnership")],
     note="input by an independent writer, output judged by an independent strict parser, the object by its getters after every step, all against one executable model of a board")
prop("I05", "A board is saved completely or the save reports failure",
     "WriteFile reports success only if both files are on disk complete, byte for byte as on a disk without faults; it reports failure, with a message, only when a system call really failed, and then the board in memory is unharmed and can be saved again. ReadFile reports success only if both files were read to their end without an error; when it refuses, the object is empty and is good for another board. No file stays open and no other file is touched; a damaged file, accepted or refused, leaves an object that can be written, cleared and used again.",
     ["fault_sequences", "inputs", "histories"], "every board, every sequence of saves and loads of one object under open, read, write and close errors, short transfers, interrupted calls, full disks and damaged files",
     "The tests read a few boards from a healthy disk and write none.",
     ["src/idf/idf_parser.cpp", "src/idf/idf_outlines.cpp", "src/idf/idf_common.cpp", "src/idf/idf_helpers.cpp"],
     [("error handling while writing", "src/idf/idf_parser.cpp: writeLibFile, writeBoardFile, WriteFile"), ("clearing after a refused load", "src/idf/idf_parser.cpp: ReadFile, Clear")],
     note="reference: the same save on a disk without faults; the end of a file is also moved onto the edge of a stream buffer")

prop("Q01", "Curves answer for the geometry they have now",
     "At every moment a curve, surface or transform answers questions about its geometry - its end points with and without the transforms which apply to them, whether it is closed, how many curves and segments it has and which they are, its overall matrix (and what the point, matrix and transform operators make of it), its plane and normal, its rational, closed and periodic properties - for the values, segments, transforms, resolution and units it has at that moment: never for values since edited, rescaled, converted, taken away or given to another entity. A question changes nothing, nor does freeing temporary memory; a composite curve takes another segment exactly as long as it is open.",
     ["histories", "inputs"], "every document and every sequence of edits, associations, deletions, moves between documents, unit and scale changes, loads and questions",
     "The tests ask for the end points of a few curves fresh from a file; answers are cached (the spline evaluator) and derived from other entities, so that only a history can show a stale one.",
     ["src/entities/entity100.cpp", "src/entities/entity102.cpp", "src/entities/entity104.cpp", "src/entities/entity110.cpp", "src/entities/entity124.cpp", "src/entities/entity126.cpp", "src/entities/entity128.cpp", "src/geom/mcad_elements.cpp", "src/geom/mcad_helpers.cpp"],
     [("spline evaluator rebuilt after every change of the curve", "src/entities/entity126.cpp: makeSCurve, rescale, SetNURBSData"), ("plane of the control points", "src/entities/entity126.cpp: hasUniquePlane"), ("chain of transforms", "src/entities/entity124.cpp: GetTransformMatrix"), ("composite curve closed", "src/entities/entity102.cpp: IsClosed, AddSegment")],
     note="oracle: de Boor evaluation and exact transform chains on the reference model, with tolerances well above rounding; answers within the model resolution of open and closed are not judged")

# fixed defects are listed by tools/mkfixed.py in known_findings.txt


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            a = dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]])
            if p["state"]:
                a["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in p["state"]]
            if p["observe"]:
                a["observe_at"] = p["observe"]
            a["hook_needed"] = None
            f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"], anchors=a)) + "\n")
    man = dict(version=1, setup_cmd="python3 driver.py --build", checks=[], not_applicable=[],
               notes="Deterministic simulation with fault injection; see DESIGN.md. Replay a reported violation with: python3 driver.py --replay <path>")
    meta = {}
    for p in P:
        if p["na"]:
            man["not_applicable"].append(dict(property=p["id"], reason=p["na"]))
            continue
        man["checks"].append(dict(property=p["id"], quick_cmd="python3 driver.py %s quick" % p["id"], thorough_cmd="python3 driver.py %s thorough" % p["id"],
                                  technique="deterministic simulation with fault injection: seeded search over simulated runs", level=p["level"], level_note=p["note"]))
        m = dict(quick_s=p["quick"], thorough_s=p["thorough"], level=p["level"], assumptions=p["assume"])
        if p["real"]:
            m["real"] = p["real"]
        if p["stub"]:
            m["stub"] = p["stub"]
        meta[p["id"]] = m
    json.dump(man, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
    json.dump(meta, open(os.path.join(HERE, "meta.json"), "w"), indent=1)


main()
