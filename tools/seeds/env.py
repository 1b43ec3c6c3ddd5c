S("s64_split_appends", "P26",
  "a mesh that is split a second time in the same folder",
  "The partitioner appends to the lists of shared sides an earlier split left instead of replacing them.",
  "P26 --job fan/rkdg/2/bc/ids/ramp/split0",
  [("partitioner/write_distributed_interfaces.cpp", "                               std::to_string(sbmsh_id) + \".dbmd\");",
    "                               std::to_string(sbmsh_id) + \".dbmd\",\n                               std::ios::app);")])
S("s65_geometry_kept", "P26",
  "a run into the output folder of an earlier run of a mesh of the same name that lies elsewhere",
  "The geometry part of the VTK output is not written again if the file is already there.",
  "P26 --job fan/rkdg/2/bc/ids/ramp/serial",
  [("source/simulation/writer.hpp", "    std::ofstream file(this->vtk_file_name_geom);\n",
    "    if (Utilities::file_exists(this->vtk_file_name_geom)) {\n        return;\n    }\n\n    std::ofstream file(this->vtk_file_name_geom);\n")])
S("s66_part_kept", "P26",
  "a mesh that has changed since it was split in the same folder, keeping its number of elements",
  "The mesh file of a part is kept if one is already there.",
  "P26 --job fan/rkdg/2/bc/ids/ramp/split0",
  [("source/preprocessor/mesh_metadata.cpp", "    std::ofstream ofs;\n    ofs.open(file);\n",
    "    if (std::ifstream(file)) {\n        return;\n    }\n\n    std::ofstream ofs;\n    ofs.open(file);\n")])
