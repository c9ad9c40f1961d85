#!/bin/bash
# exit 0: the behaviour is right; anything else: it is broken
D="$(cd "$(dirname "$0")" && pwd)"; R="$PWD"; T="$(mktemp -d)"; trap 'rm -rf "$T"' EXIT
g++ -std=c++17 -w -O1 -pthread -DROS_AVAILABLE=0 -DENABLE_ARUCO_TAGS=1 -I/usr/include/eigen3 -I/usr/include/opencv4 \
  -I"$R/ov_core/src" -I"$R/ov_init/src" -I"$R/ov_msckf/src" -I"$R/ov_eval/src" "$D/demo.cpp" -o "$T/demo" \
  -L"$R/_build/ov_msckf" -lov_msckf_lib -L"$R/_build/ov_eval" -lov_eval_lib -Wl,-rpath,"$R/_build/ov_msckf" -Wl,-rpath,"$R/_build/ov_eval" \
  -lceres -lglog $(for l in core imgproc features2d video calib3d imgcodecs highgui videoio aruco; do echo -lopencv_$l; done) \
  -lboost_filesystem -lboost_system -lboost_date_time -lboost_thread || exit 3
cd "$T" && DATA="$D" REPO="$R" timeout 240 ./demo
