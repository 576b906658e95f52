#pragma once
namespace aslam { namespace backend {
template<typename I> class CompressedColumnMatrix {};
} }
