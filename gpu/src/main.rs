fn main() {
    vh::cli(|ctx| vhg::run(ctx, side_cpu::catalogue(), side_gpu::catalogue()));
}
