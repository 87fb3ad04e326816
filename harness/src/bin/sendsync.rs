//! Compiles only if the library's types may be moved to and shared between threads.
use kpdb::*;

fn both<T: Send + Sync>() {}
fn val<T: Send + Sync>(_: &T) {}

fn main() {
    both::<Association>();
    both::<BinariesMap>();
    both::<BinaryId>();
    both::<BinaryKey>();
    both::<BinaryValue>();
    both::<Color>();
    both::<ColorError>();
    both::<Comment>();
    both::<CompositeKey>();
    both::<Compression>();
    both::<CustomDataMap>();
    both::<CustomIconUuid>();
    both::<CustomIconsMap>();
    both::<Database>();
    both::<DbType>();
    both::<Entry>();
    both::<EntryUuid>();
    both::<Error>();
    both::<Group>();
    both::<GroupUuid>();
    both::<Icon>();
    both::<IconError>();
    both::<KeyFile>();
    both::<KeyFileType>();
    both::<MasterCipher>();
    both::<Obfuscation>();
    both::<ObfuscationError>();
    both::<StreamCipher>();
    both::<StringKey>();
    both::<StringValue>();
    both::<StringsMap>();
    both::<TransformRounds>();
    both::<Version>();
    // the iterators
    let mut g = Group::new("");
    val(&g.iter());
    val(&g.iter_mut());
    println!("35");
}
