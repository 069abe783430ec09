//! Offline stand-in for the part of pallet-authorship the collator selection uses.
pub trait EventHandler<Author, BlockNumber> {
    fn note_author(author: Author);
}
pub trait Config: frame_system::Config {}
