"""Writes properties.jsonl and MANIFEST.json."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
IN = "toughio/_io/input/tough/"
P = []


def prop(id, title, statement, over, text, why, files, mech, built=True, na=None, note=""):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, built=built, na=na, note=note))


prop("C01", "Fixed-column records keep every field in its own columns",
     "Every value written to a TOUGH fixed-column record reads back as itself, whatever the magnitude or sign of its neighbours: text and integers exactly, real numbers to the precision that fits their columns. Blank fields stay blank, and numbers in the Fortran style with or without an exponent letter read as the number they denote.",
     ["inputs"], "all values of every field of every record format, one field at a time over the whole double range, blank masks",
     "tests write a few random positive values of ordinary size; negative values and three-digit exponents are never produced",
     ["toughio/_common.py", IN + "_helpers.py"], [("write_record / read_record / str2float", IN + "_helpers.py"), ("block_to_format", "toughio/_common.py")])

prop("C02", "Rock, relative permeability, capillarity and FLAC data survive a round trip",
     "Writing a TOUGH input file and reading it back returns the same materials with the same names and, for each, the same density, porosity, permeabilities (isotropic or per axis), conductivity, specific heat, the optional second-record properties, relative permeability and capillarity models, initial conditions per material and FLAC models, to the precision of their columns. Properties that were not given stay absent, and a material's data never leak into another material.",
     ["inputs"], "all property values, all combinations of present and absent properties, one to three materials",
     "tests draw one random value for a fixed set of keys", [IN + "_read.py", IN + "_write.py", IN + "_common.py"],
     [("_write_rocks/_write_rpcap/_write_flac/_write_indom", IN + "_write.py"), ("_read_rocks/_read_rpcap/_read_flac/_read_indom", IN + "_read.py")])

prop("C03", "Run-control blocks survive a round trip",
     "Writing a TOUGH input file and reading it back returns the same title, time-stepping and convergence parameters, every numbered option (extra, more and selection options), solver settings, multicomponent sizes, output times, output directives, diffusion coefficients and history lists, in order and to the precision of their columns. Options that were not given stay absent, and one option never shows up as another.",
     ["inputs", "configurations"], "all values of every option and parameter, every subset of options one at a time and all together, tables up to two lines and beyond",
     "tests set every option at once to fixed values or draw one random value", [IN + "_read.py", IN + "_write.py"],
     [("_write_param/_write_momop/_write_selec/_write_solvr/_write_multi/_write_times/_write_diffu/_write_outpu/_write_foft/_write_coft/_write_goft", IN + "_write.py"), ("matching readers", IN + "_read.py")])

prop("C04", "Generators survive a round trip",
     "Writing sinks and sources and reading them back returns the same generators on the same elements, in order, several per element included: name, type, repetition fields, layer count, rate, specific enthalpy, and complete time, rate and enthalpy tables of any length, to the precision of their columns.",
     ["inputs"], "all values, label lengths 5 to 9, one or more generators on one or more elements, tables of 1 to 9 entries, with and without specific enthalpy",
     "tests use one random table length and full data", [IN + "_read.py", IN + "_write.py"], [("_write_gener", IN + "_write.py"), ("_read_gener", IN + "_read.py")])

prop("C05", "Elements and connections survive a round trip through an input file",
     "Writing elements and connections and reading them back returns the same elements in the same order with material, volume, heat exchange area, permeability modifier, centre and repetition fields, and the same connections with permeability direction, nodal distances, interface area, gravity cosine and radiant emittance factor. The writing order lists are respected, labels of 5 to 9 characters are kept apart, and absent values stay absent.",
     ["inputs"], "all values, label lengths 5 to 9, presence masks, coordinates block on and off",
     "tests use random full records", [IN + "_read.py", IN + "_write.py"], [("_write_eleme/_write_coord/_write_conne", IN + "_write.py"), ("_read_eleme/_read_coord/_read_conne", IN + "_read.py")])

prop("C06", "Initial conditions survive a round trip through an input file",
     "Writing initial conditions and reading them back returns, for every element in order, the same primary variables (up to eight, zeros and negative values included), porosity, and user fields, to the precision of their columns. Values that were not given stay absent.",
     ["inputs"], "all values, label lengths 5 to 9, one to eight variables, presence masks", "tests use four random values",
     [IN + "_read.py", IN + "_write.py"], [("_write_incon", IN + "_write.py"), ("_read_incon", IN + "_read.py")])

prop("C07", "Writing an input file never alters the parameters and is repeatable",
     "Writing a TOUGH or JSON input file leaves the caller's parameters unchanged, and writing the same parameters again, also after writing other parameters in between, gives the same file. Properties set as defaults apply to exactly those materials that do not set them, in the file and not in the caller's data.",
     ["histories", "inputs"], "sequences of two or three writes of differing parameters, every writable section, all values",
     "tests write once and never compare the parameters afterwards", [IN + "_write.py", IN + "_helpers.py", "toughio/_io/input/json/_json.py"], [("deepcopy of parameters and defaults", IN + "_write.py")])

prop("C08", "JSON input files keep every parameter",
     "Writing parameters to JSON and reading them back returns equal parameters: integer keys of numbered options and dictionaries keyed by text both keep their kind, arrays become lists of equal numbers, numpy scalars become plain numbers, nested generators and tables keep their structure.",
     ["inputs"], "all values of all sections, arrays and numpy scalars, option keys 1 to 40",
     "tests compare one hand-written dictionary", ["toughio/_io/input/json/_json.py"], [("write/read", "toughio/_io/input/json/_json.py")])

prop("C09", "Block selection and parameter validation are exact",
     "For each choice of blocks (all, gener, mesh, incon) the TOUGH writer emits exactly the blocks of that choice for which parameters are given, each once and in the documented order, a complete file being closed by the end keyword, and reading the file back gives exactly these sections. Unknown block choices, unknown equations of state and parameters of a wrong type are rejected with an error before anything is written, and values of the documented types are accepted.",
     ["configurations", "inputs"], "all single sections, all pairs, all and all but one, with every block choice; every documented parameter with every kind of wrong type",
     "tests write one section at a time and check few bad values", [IN + "_write.py", IN + "_helpers.py"], [("block selection in write_buffer", IN + "_write.py"), ("check_parameters/dtypes", IN + "_helpers.py")])

prop("C10", "Element labels are unique, well formed and readable back",
     "Labels generated for a mesh are pairwise different for every number of cells that the label length can address, follow the three-character plus number pattern of the requested length, and depend only on cell number and label length. Their length is recognised when they are read back from a file.",
     ["inputs"], "any two distinct cell numbers in the whole range, label lengths 5 to 9",
     "tests compare labels of two small meshes", ["toughio/_mesh/_common.py", "toughio/_common.py"], [("labeler", "toughio/_mesh/_common.py"), ("get_label_length", "toughio/_common.py")])

prop("C11", "Cell centres, volumes, faces and areas are geometrically correct",
     "For every supported cell shape in any orientation, the centre is the mean of its points, the volume is the exact volume of the convex cell with planar faces, and each face has its exact area and an outward unit normal. Volumes and areas are positive, add up over a structured grid, and are unchanged by translating the mesh.",
     ["inputs"], "all vertex positions of each cell shape (affine images of the reference shapes and free perturbations within the stated bounds)",
     "tests compare one or two hard-coded meshes", ["toughio/_mesh/_properties.py", "toughio/_mesh/_common.py"], [("_volumes/_face_areas/_face_normals", "toughio/_mesh/_properties.py")])

prop("C12", "Connections join exactly the cells that share a face",
     "Two cells are connected if and only if they share a whole face, each pair once, the relation is symmetric, and every face that is not shared is a boundary face. This holds for any cell numbering, any node ordering within faces and any mixture of cell types.",
     ["inputs", "configurations"], "all node numberings of small meshes of mixed cells",
     "tests compare connections of one structured mesh", ["toughio/_mesh/_properties.py", "toughio/_mesh/_common.py"], [("_connections", "toughio/_mesh/_properties.py")])

prop("C13", "An exported MESH describes the mesh",
     "The exported MESH lists every cell once with its label, material, volume and centre, and every pair of neighbouring cells once with the distances from the two centres to their shared face, the face area, the permeability direction and the cosine between the line joining the centres and gravity. Cells marked inactive or as Dirichlet boundary come out with the documented boundary treatment, and listed materials come last.",
     ["inputs"], "all grid spacings of small structured grids, all materials, both nodal distance methods, gravity vectors along and across axes",
     "tests compare MESH of one mesh with one reference", ["toughio/_mesh/tough/_tough.py", "toughio/_mesh/tough/_helpers.py"], [("write/_write_eleme/_write_coord/_write_conne", "toughio/_mesh/tough/_tough.py")])

prop("C14", "An exported INCON carries the cell data of the mesh",
     "The exported INCON gives each cell, under the label it has in MESH, the primary variables, porosity and permeability stored in the mesh, in order, to the precision of the columns. Values marked as not set are left blank and cells with nothing to set are left out.",
     ["inputs"], "all values, all masks of unset values on small meshes",
     "tests compare one random mesh", ["toughio/_mesh/tough/_tough.py", "toughio/_mesh/tough/_helpers.py"], [("_write_incon/init_incon", "toughio/_mesh/tough/")])

prop("C15", "FLAC3D grids survive a round trip",
     "Writing a mesh to a FLAC3D grid, text or binary, and reading it back returns the same points, the same cells (zones first, then faces, each in the order of the mesh) with the same sides and volumes, and the same material of every cell, named or not. Zones are written right-handed, as FLAC3D requires, whichever way the cells of the mesh are oriented, and the mesh itself is unchanged. Grids of other programs are read likewise: any numbers of points and zones, groups of zones and of faces in any order, cells that belong to no group.",
     ["inputs"], "all coordinates of small meshes of every supported cell type, all material assignments",
     "tests compare one mesh per cell type", ["toughio/_mesh/flac3d/_flac3d.py"], [("read/write", "toughio/_mesh/flac3d/_flac3d.py")])

prop("C16", "AVS-UCD and Tecplot meshes survive a round trip",
     "Writing a mesh to AVS-UCD or Tecplot and reading it back returns the same points, cells, materials (AVS-UCD), and every point and cell data array of the mesh under its name and with its values, to the digits of the format, and leaves the mesh itself unchanged. Tecplot keeps one column per component of vector data, and leaves out the plane cells (and their data) of meshes with solid cells.",
     ["inputs"], "all coordinates and data values of small meshes of every supported cell type",
     "tests compare one mesh per cell type with one random array", ["toughio/_mesh/avsucd/_avsucd.py", "toughio/_mesh/tecplot/_tecplot.py"], [("read/write", "toughio/_mesh/avsucd/_avsucd.py"), ("read/write", "toughio/_mesh/tecplot/_tecplot.py")])

prop("C17", "Extruding and pruning a mesh keep its cells, data and volume",
     "Extruding a plane mesh along any axis gives, for every height list, layers of prisms of its cells in order, whose volumes are the plane areas times the layer heights and whose cell data are those of the plane cells, one value per cell; points carry the data of their plane points. Removing duplicates merges exactly the points that coincide, removes repeated cells of a block, and leaves every other cell where it was with its data; every point and cell array keeps one value per point or cell. Without inplace the mesh itself is unchanged.",
     ["inputs"], "all heights, all coordinates of small plane meshes, all coincidence patterns of small point sets",
     "tests use one or two fixed meshes", ["toughio/_mesh/_mesh.py"], [("extrude/extrude_to_3d/prune_duplicates", "toughio/_mesh/_mesh.py")])

prop("C18", "Assigning materials affects exactly the chosen cells",
     "After any sequence of material assignments each cell has the material of the last assignment that selected it and all other cells keep theirs, whatever names and numbers the mesh had before. Assigning to no cell changes nothing.",
     ["histories", "inputs"], "sequences of up to three assignments with any selections and any prior material numbering on small meshes",
     "tests make one or two fixed assignments", ["toughio/_mesh/_mesh.py"], [("set_material", "toughio/_mesh/_mesh.py")])

prop("C19", "Spatial selection and nearest-cell queries are exact",
     "Selecting cells by box returns exactly the cells whose centre lies inside the bounds given, with absent bounds unlimited, and the nearest-cell query returns a cell whose centre is at the smallest distance from the query point.",
     ["inputs"], "all centres, bounds and query points on small meshes", "tests use one box on one mesh",
     ["toughio/_mesh/_filter/_helpers.py", "toughio/_mesh/_filter/box/_box.py", "toughio/_mesh/_mesh.py"], [("MeshFilter/box", "toughio/_mesh/_filter/"), ("near", "toughio/_mesh/_mesh.py")])

prop("C20", "Generated grids fill the requested domain",
     "Structured, cylindrical and voxel grids have exactly the requested number of cells in each direction, with the requested spacings, origin and material, in the documented cell order, their volumes add up to the volume of the domain, and no point is duplicated. Layered grids have the same cells as unlayered ones. A triangulated cloud keeps its points, in order, and has the cells of the triangulation, in one material.",
     ["inputs"], "all spacings and origins for small numbers of cells in 1D, 2D and 3D", "tests compare one grid each",
     ["toughio/meshmaker/_structured_grid.py", "toughio/meshmaker/_cylindric_grid.py", "toughio/meshmaker/_voxelize.py"], [("structured_grid/cylindric_grid/voxelize", "toughio/meshmaker/")])

prop("C21", "Mesh conversion and cell data bookkeeping keep data with its cell",
     "Converting a mesh to and from meshio, splitting and joining cell data over cell blocks, and turning cell data into point data keep every value with its cell: conversions round trip, leave the source unchanged and keep names and numbers of materials; the value at a point is the mean of the cells around it weighted by their volumes, the value of a cell the mean of its points, for every component, and a constant field stays constant.",
     ["inputs"], "all values on small meshes with one or several cell blocks", "tests use one random array",
     ["toughio/_mesh/_mesh.py", "toughio/_mesh/_helpers.py"], [("to_meshio/from_meshio/cell_data_to_point_data", "toughio/_mesh/")])

prop("C22", "Output tables survive a round trip",
     "Writing simulation outputs as CSV, PetraSim or Tecplot and reading them back returns the same time steps in order, and for every time step the same element labels (where the format has them), variables, coordinates and values.",
     ["inputs"], "all values, one to three time steps, element and connection tables", "real reference outputs are compared for a handful of files",
     ["toughio/_io/output/csv/_csv.py", "toughio/_io/output/petrasim/_petrasim.py", "toughio/_io/output/tecplot/_tecplot.py", "toughio/_io/output/_common.py"], [("read/write", "toughio/_io/output/")])

prop("C23", "Outputs attach to the mesh cell they were computed for",
     "Reordering an output by a list of labels, and importing an output into a mesh, give every cell the values computed for its own label for any order of the labels in the output. Outputs of other meshes (fewer, more or other labels) are rejected and change nothing. Connection data imported into a mesh are, for every cell, the sum of the flows into the cell along the lines between both cells.",
     ["inputs"], "all permutations of labels and all values on small meshes", "tests import one output in the order of the mesh",
     ["toughio/_io/output/_helpers.py", "toughio/_mesh/_mesh.py"], [("reorder_labels/get_output_type", "toughio/_io/output/_helpers.py"), ("read_output", "toughio/_mesh/_mesh.py")])

prop("C24", "TOUGH listings and SAVE files are read completely",
     "Reading a TOUGH listing returns every printed time step with every element or connection row under its label and header, with the printed values, also with page breaks, repeated headers and numbers without a blank between them. Reading a SAVE file gives the primary variables, porosity and user fields of every element (those an element does not have are not-a-number), and reading a history file gives every row under its header.",
     ["inputs"], "all printed values and labels of small listings, with and without page breaks, and of small SAVE and history files", "tests read a handful of reference listings",
     ["toughio/_io/output/tough/_tough.py", "toughio/_io/output/save/_save.py"], [("read", "toughio/_io/output/tough/_tough.py"), ("read", "toughio/_io/output/save/_save.py")])

prop("C25", "A time series keeps each step with its time",
     "A mesh time series written to XDMF holds every time step once, in increasing order of time whatever the order given, each with its own data arrays; reading it back gives the points, the cells and every step's time and arrays.",
     ["inputs"], "all times and values of up to three steps", "tests write one series in order",
     ["toughio/_mesh/_helpers.py"], [("write_time_series, read_time_series", "toughio/_mesh/_helpers.py")])

prop("C26", "Merging input files keeps every part",
     "Merging an input file with MESH and INCON files gives a file with all lines of the input file and all lines of each extra file exactly once, those of MESH and INCON before the end keyword. Nothing is written and an error is raised when the input file or MESH is missing, when the input file has no ROCKS, PARAM or end keyword, or when an extra file does not begin with its block.",
     ["inputs", "configurations"], "all combinations of the files present, any position of the end keyword, with and without these blocks in the input file",
     "tests merge one fixed set", ["toughio/_cli/_merge.py"], [("merge", "toughio/_cli/_merge.py")])

prop("C27", "Conversion tools keep the simulation data",
     "Converting a SAVE file to INCON keeps every element, porosity, user field and primary variable and can reset the clock; a file that is not a SAVE file leaves the output as it was. Extracting an output gives each element its own centre coordinates and values (connections: the middle of both centres), in the format asked for, all steps in one file or one file per step. Exporting an output keeps the values of each element at the centre of the element: in its voxel, in the cell of its label when a mesh is given, or at its point.",
     ["inputs"], "all values of small outputs, with and without options", "tests convert one reference file each",
     ["toughio/_cli/_save2incon.py", "toughio/_cli/_extract.py", "toughio/_cli/_export.py"], [("save2incon/extract/export", "toughio/_cli/")])

prop("C28", "Relative permeability models follow their formulas",
     "For every model and all admissible parameters, liquid and gas relative permeabilities follow the published formula, stay between 0 and 1 (where the model has this bound), are monotone in liquid saturation, and reach their end values at residual and full saturation. Scalars and arrays give the same values, and inadmissible parameters or saturations are rejected.",
     ["inputs"], "all saturations in [0, 1] and all admissible parameters of every model", "tests compare one reference curve per model",
     ["toughio/relative_permeability/_base.py"] + ["toughio/relative_permeability/_%s.py" % m for m in ("corey", "fatt_klikoff", "grant", "linear", "pickens", "van_genuchten_mualem", "verma")], [("_eval", "toughio/relative_permeability/")])

prop("C29", "Capillary pressure models follow their formulas",
     "For every model and all admissible parameters, the capillary pressure follows the published formula, is never positive and respects its cut-off values. It never decreases with liquid saturation where the published formula does not (linear, TRUST, van Genuchten, and Milly on either side of its cut-off). Scalars and arrays give the same values, and inadmissible parameters or saturations are rejected.",
     ["inputs"], "all saturations in [0, 1] and all admissible parameters of every model", "tests compare one reference curve per model",
     ["toughio/capillarity/_base.py"] + ["toughio/capillarity/_%s.py" % m for m in ("linear", "milly", "pickens", "trust", "van_genuchten")], [("_eval", "toughio/capillarity/")])

prop("C30", "Readers terminate on truncated files",
     "Reading a TOUGH input file, mesh file or output file that was cut off anywhere terminates, with the data read so far or with an error. What is read of an input or output file that was cut between two lines is part of what is read of the whole file.",
     ["inputs", "fault_sequences"], "every cut position (by line and inside lines) of small files of every readable format",
     "tests only read complete files", [IN + "_read.py", "toughio/_mesh/tecplot/_tecplot.py", "toughio/_io/output/tecplot/_tecplot.py"], [("block loops", IN + "_read.py")])

prop("C31", "Cell qualities measure how orthogonal the connections are",
     "The quality of every cell that has a neighbour is the smallest absolute cosine, over its connections, of the angle between the line joining the two cell centres and the normal of their shared face: between 0 and 1, 1 for boxes, whatever the order of the cells and the mix of shapes, also for cells that come late and have several earlier neighbours.",
     ["inputs"], "boxes of any size, sheared and slanted hexahedra, tetrahedra, pyramids and wedges, in several orders of cells",
     "tests compare the qualities of one mesh with stored sums", ["toughio/_mesh/_properties.py", "toughio/_mesh/_mesh.py"], [("_qualities", "toughio/_mesh/_properties.py")])
prop("C32", "Files are read and written by the functions of their format",
     "A file is read and written by the functions of the format given, else of the format its extension (of the last dot of its name, in any case) is registered for, else TOUGH for input files and meshio for meshes; an output file is recognised by its first line. Options reach the reader and writer unchanged, registering again replaces, other formats keep theirs, and meshes of registered formats keep every cell's data and materials in both directions.",
     ["inputs"], "names of files with any letters in the extension, formats given or not, formats registered on top; first lines of output files",
     "tests register one format and use one file name each", ["toughio/_common.py", "toughio/_io/input/_helpers.py", "toughio/_io/output/_helpers.py", "toughio/_mesh/_helpers.py"],
     [("filetype_from_filename, register_format", "toughio/_common.py"), ("get_output_type", "toughio/_io/output/_helpers.py"), ("get_material_key", "toughio/_mesh/_helpers.py")])

TECH = "symbolic execution of the real Python code, every path's assertions decided by Z3, counterexamples replayed"
NOTE = "holds for all values within the bounds stated in evidence; trusts the interpreter models (text, numbers as reals, numpy subset) and Z3"


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]},
                "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]]},
            }) + "\n")
            assert len(p["title"]) <= 80, p["title"]
    checks, na = [], []
    for p in P:
        mod = os.path.join(HERE, "harness", p["id"].lower() + ".py")
        if p["na"] or not os.path.exists(mod):
            na.append({"property": p["id"], "reason": p["na"] or "check not built yet"})
            continue
        cmd = "/opt/venv/bin/python check.py %s" % p["id"]
        checks.append({"property": p["id"], "quick_cmd": cmd + " --tier quick", "thorough_cmd": cmd + " --tier thorough",
                       "technique": TECH, "level": "model_checking", "level_note": NOTE + (" " + p["note"] if p["note"] else "")})
    m = {"version": 1, "setup_cmd": "/opt/venv/bin/python check.py --selftest", "checks": checks, "not_applicable": na}
    json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)


main()
