PA = "source/problem/SWE/problem_parser/swe_parser.hpp"
S("s59_weather_missing_file", "P24",
  "a run that outlasts the weather files it was given",
  "When the next weather file is missing the run goes on with the last one instead of stopping.",
  "P24",
  [(PA, "        meteo_data_file_name.insert(meteo_data_file_name.find_last_of(\".\"),\n                                    '_' + std::to_string(step + this->meteo_parse_frequency));\n\n        if (!Utilities::file_exists(meteo_data_file_name)) {\n            throw std::logic_error(\"Fatal Error: meteo data file \" + meteo_data_file_name + \" was not found!\\n\");\n        }\n",
        "        meteo_data_file_name.insert(meteo_data_file_name.find_last_of(\".\"),\n                                    '_' + std::to_string(step + this->meteo_parse_frequency));\n\n        if (!Utilities::file_exists(meteo_data_file_name)) {\n            // hold the last known data\n            this->node_meteo_data_step[step + this->meteo_parse_frequency] = this->node_meteo_data_step[step];\n            return;\n        }\n")])
S("s60_weather_first_stage", "P24",
  "weather data that vary within a step and an integrator with more than one stage",
  "The elements take the weather at the first stage of a step only; later stages see the value of the step's start.",
  "P24",
  [(PA, "        mesh.CallForEachElement([](auto& elt) {\n            for (uint node = 0; node < elt.data.get_nnode(); ++node) {\n                elt.data.source.tau_s",
        "        if (stepper.GetStage() != 0)\n            return;\n\n        mesh.CallForEachElement([](auto& elt) {\n            for (uint node = 0; node < elt.data.get_nnode(); ++node) {\n                elt.data.source.tau_s")])
S("s61_weather_foreign_node", "P24",
  "a weather file, other than the first two, that lists a node the submesh does not have before one it has",
  "Reading stops at the first node the submesh does not know instead of skipping it.",
  "P24",
  [(PA, "            this->node_meteo_data_step[step + this->meteo_parse_frequency][node_id] = meteo_data;",
        "            if (!this->node_meteo_data_interp.empty() && !this->node_meteo_data_interp.count(node_id))\n                break;\n\n            this->node_meteo_data_step[step + this->meteo_parse_frequency][node_id] = meteo_data;")])
S("s62_latitude_of_first_node", "P25",
  "rotation of the earth in elements large enough for the latitude to vary across them",
  "The Coriolis parameter is taken at one node instead of the element's mean latitude.",
  "P25",
  [("source/problem/SWE/problem_preprocessor/swe_pre_init_data.hpp",
    "            double y_avg = 0;\n            for (uint node = 0; node < elt.data.get_nnode(); ++node) {\n                y_avg += elt.GetShape().nodal_coordinates[node][GlobalCoord::y];\n            }\n            y_avg /= elt.data.get_nnode();",
    "            const double y_avg = elt.GetShape().nodal_coordinates[0][GlobalCoord::y];")])
S("s63_pressure_still_depth", "P25",
  "varying air pressure over water whose surface is away from the still level",
  "The pressure gradient acts on the still water depth instead of the water column in the y momentum.",
  "P25",
  [("source/problem/SWE/problem_source/swe_source.hpp",
    "            internal.source_at_gp(SWE::Variables::qy, gp) -= internal.aux_at_gp(SWE::Auxiliaries::h, gp) *\n                                                             internal.dp_atm_at_gp(GlobalCoord::y, gp) /",
    "            internal.source_at_gp(SWE::Variables::qy, gp) -= internal.aux_at_gp(SWE::Auxiliaries::bath, gp) *\n                                                             internal.dp_atm_at_gp(GlobalCoord::y, gp) /")])
