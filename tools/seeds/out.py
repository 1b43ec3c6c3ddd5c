SI = "source/simulation/"
PO = "source/problem/SWE/problem_postprocessor/"
S("s41_vtu_period", "P21",
  "both kinds of graphics files are asked for, with different periods",
  "The period of one kind is used for both when both are written.",
  "P21",
  [(SI + "writer.hpp",
    "if (this->writing_vtu_output && (stepper.GetStep() % this->vtu_output_frequency == 0)) {",
    "if (this->writing_vtu_output &&\n        (stepper.GetStep() % (this->writing_vtk_output ? this->vtk_output_frequency : this->vtu_output_frequency) == 0)) {")])
S("s42_modal_restart", "P21",
  "modal output after every step",
  "The file of the momentum in y is opened anew by the second write as well, so the initial state is lost.",
  "P21",
  [(PO + "swe_post_write_modal.hpp",
    '"_modal_qy.txt";\n    if (stepper.GetStep() == 0) {',
    '"_modal_qy.txt";\n    if (stepper.GetStep() <= 1) {')])
S("s43_modal_append", "P21",
  "a second run into the same directory",
  "The file of the depths is always appended to.",
  "P21",
  [(PO + "swe_post_write_modal.hpp",
    '"_modal_bath.txt";\n    if (stepper.GetStep() == 0) {\n        file = std::ofstream(file_name);',
    '"_modal_bath.txt";\n    if (stepper.GetStep() == 0) {\n        file = std::ofstream(file_name, std::ios::app);')])
S("s44_error_rule", "P21",
  "a true solution that is not a polynomial of low degree",
  "The error norm is integrated with a rule that is exact for the discrete solution only.",
  "P21",
  [("source/geometry/element.hpp",
    "rule = this->master->integration.GetRule(20);",
    "rule =\n        this->master->integration.GetRule(2 * this->master->p);")])
S("s45_velocity_depth", "P21",
  "a bottom that varies over an element and a velocity in a vtu file",
  "The velocity written at points is computed with the depth of the first point of the file's element list.",
  "P21",
  [(PO + "swe_post_write_vtu.hpp",
    "(q_point_data[pt][SWE::Variables::ze] + aux_point_data[pt][SWE::Auxiliaries::bath]))",
    "(q_point_data[pt][SWE::Variables::ze] + aux_point_data[pt - pt % 3][SWE::Auxiliaries::bath]))")])
