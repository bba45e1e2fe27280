@file src/indexes/mod.rs indexes
@inject trait NtfsIndexEntryKey
    /// The bytes are a well-formed key of this type.
    spec fn key_ok(s: Seq<u8>) -> bool;
    /// This is the key stored in the bytes.
    spec fn key_of(&self, s: Seq<u8>) -> bool;
@fn trait NtfsIndexEntryKey::key_from_slice
@props C13 C18
@ensures
        r is Ok <==> Self::key_ok(slice@),
        match r { Ok(k) => k.key_of(slice@), Err(_) => true },
@inject trait NtfsIndexEntryData
    /// The bytes are well-formed data of this type.
    spec fn data_ok(s: Seq<u8>) -> bool;
    /// This is the data stored in the bytes.
    spec fn data_of(&self, s: Seq<u8>) -> bool;
@fn trait NtfsIndexEntryData::data_from_slice
@props C13
@ensures
        r is Ok <==> Self::data_ok(slice@),
        match r { Ok(k) => k.data_of(slice@), Err(_) => true },
