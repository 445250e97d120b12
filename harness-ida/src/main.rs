fn main() {
    ida::verif::main()
}
