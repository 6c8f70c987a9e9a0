// Schemas and counters of the host build of the CUDA operators (check C22).
#include <torch/script.h>
extern "C" long mc_cells, mc_ops, mc_scans, mc_differs, mc_outputs;
long mc_cells = 0, mc_ops = 0, mc_scans = 0, mc_differs = 0, mc_outputs = 0;
extern "C" void mc_stats(long *o)
{
    o[0] = mc_cells;
    o[1] = mc_ops;
    o[2] = mc_scans;
    o[3] = mc_differs;
    o[4] = mc_outputs;
}
TORCH_LIBRARY(philtorch, m)
{
    m.def("recur2(Tensor A, Tensor zi, Tensor x) -> Tensor");
    m.def("lti_recur2(Tensor A, Tensor zi, Tensor x) -> Tensor");
    m.def("lti_recur(Tensor A, Tensor zi, Tensor x) -> Tensor");
}
