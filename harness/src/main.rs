fn main() {
    vh::cli(vh::run)
}
