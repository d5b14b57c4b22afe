mod c23;
mod c25;
mod c26;
mod c32;

fn main() {
    let mut p = c23::props();
    p.extend(c25::props());
    p.extend(c26::props());
    p.extend(c32::props());
    vmon::main(p)
}
