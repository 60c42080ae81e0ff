clang++ -std=c++20 -O2 -g -fsanitize=address,undefined -fno-sanitize-recover=undefined -I${REPO:-/repo}/include -DSIM_COORD=std::int${1:-32}_t -DSIM_INDEX=${2:-std::size_t} /verif/sim/raster.cpp -o /verif/sim/build/rs${1:-32} -ldl -lpthread
