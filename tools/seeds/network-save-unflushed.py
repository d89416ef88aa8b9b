PROPERTY='C22'
NEEDS='a disk or quota that takes all but the last kilobytes of the file'
BREAKS='the network is saved through a buffered writer whose last flush happens on drop, where its error is lost'
EDITS=[('src/network.rs','''        fs::write(filename, ''','''        write_buffered(filename, '''),
('src/network.rs','''pub struct Network {
''','''// Writes a file piece by piece
fn write_buffered(filename: &String, data: Vec<u8>) -> std::io::Result<()> {
    use std::io::Write;
    let mut writer = std::io::BufWriter::with_capacity(4096, fs::File::create(filename)?);
    for piece in data.chunks(1024) {
        writer.write_all(piece)?;
    }
    return Ok(());
}

pub struct Network {
''')]
DEMO='''extern "C" {
    fn setrlimit(what: i32, to: *const [u64; 2]) -> i32;
    fn signal(sig: i32, to: usize) -> usize;
}

fn main() {
    let f = name();
    let mut n = Network::new(NetworkRunState::Inference);
    n.add_layer(FullyConnectedLayer::new(30, 40, &name())).unwrap();
    n.save_to_file(&f).unwrap();
    let len = std::fs::metadata(&f).unwrap().len();
    // files may hold all but one byte of it
    unsafe {
        signal(25, 1);
        assert_eq!(setrlimit(1, &[len - 1, len - 1]), 0);
    }
    let r = n.save_to_file(&f).is_ok();
    std::fs::remove_file(&f).unwrap();
    assert!(!r);
}
'''
