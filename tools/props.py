COMMON_TRUST = [
  "rustc and LLVM compile the verified source faithfully; the verifiers' encodings (Kani 0.68/CBMC 6.11, Verus) are sound",
]
HASH = "cryptoxide primitives (SHA-2, HMAC, PBKDF2) are uninterpreted functions in proofs (/verif/models/cryptoxide): only that they are functions of their inputs is used; the native runs use the real crate"
SECP = "libsecp256k1 (/verif/models/libsecp256k1): scalars are exact integers modulo the group order, points and ECDSA are uninterpreted with verify(m, sign(m,k), pub(k)) = true; RIPEMD-160 is uninterpreted; the native runs use the real crates"
STD = "the Rust standard library (Vec, String, slices, iterators) is executed symbolically from its real source; its allocator is the verifier's"

COPY = "the keychain crate is verified from a mechanical copy made on every run; the copy only redirects std::collections to a HashMap by contract (/verif/models/verif_collections, both iteration orders) and re-exports the private path error; the native runs use /repo/keychain itself with the real HashMap"
BIP32 = "in proofs the keychain crate sees secp256k1_bip32 by its contract (C09-C11, /verif/models/secp256k1_bip32): operations are uninterpreted functions of the key's state"
ED = "ed25519-bip32 is an uninterpreted contract model (/verif/models/ed25519-bip32) in proofs; the native runs use the real crate"

CAPI = "in proofs of the C interface the operations of the keychain crate are replaced by contracts (any answer, arguments recorded), std::panic::catch_unwind by its contract (/verif/models/verif_panic, redirected in the mechanical copy; a panicking operation has no effect), and std's text formatting, str::replace without occurrence, str::from_utf8 on ASCII, CString::{new,from_raw} and CStr::from_ptr by contracts on fixed texts; the native runs use all the real ones"


def titles():
  import json, os
  d = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
  return {p["id"]: p["title"] for p in map(json.loads, open(os.path.join(d, "properties.jsonl")))}


ENTROPY = ["Entropy::from_slice", "Entropy::new", "Entropy::hash", "Entropy::checksum", "Entropy::get_type", "Entropy::as_ref", "Type::from_entropy_size", "Type::to_key_size", "Type::mnemonic_count", "Type::checksum_size_bits"]
PROPS = {
  "C01": dict(level="proof", kani=["bip39"], native=["bip39"],
    functions=ENTROPY + ["Entropy::to_mnemonics", "BitReaderBy11::new", "BitReaderBy11::read", "Mnemonics::from_mnemonics", "Mnemonics::get_type"],
    trust=[HASH, STD]),
  "C02": dict(level="proof", kani=["bip39"], native=["bip39"],
    functions=ENTROPY + ["Entropy::from_mnemonics", "BitWriterBy11::new", "BitWriterBy11::write", "BitWriterBy11::to_bytes", "Mnemonics::from_mnemonics", "Mnemonics::get_type", "Type::from_word_count"],
    trust=[HASH, STD]),
  "C03": dict(level="other", kani=["bip39"], native=["bip39"],
    functions=["BitWriterBy11::new", "BitWriterBy11::write", "BitWriterBy11::to_bytes", "BitReaderBy11::new", "BitReaderBy11::size", "BitReaderBy11::read"],
    trust=[STD],
    bounds='proved: 0 to 9 and 17 writes of any values, all byte strings of 0 to 12 and 25 bytes with every read they allow; bounded: other lengths to 100 natively (random)'),
  "C04": dict(level="other", kani=["bip39"], native=["bip39", "keychain"],
    functions=["MnemonicIndex::new", "MnemonicIndex::to_word", "MnemonicIndex::from_word", "DefaultDictionary::lookup_word", "DefaultDictionary::lookup_mnemonic"],
    trust=[STD],
    bounds='proved: every number in a word list whose words are pairwise told apart at any one place, MnemonicIndex::new for all 65536 values; the eight lists (a finite constant) are enumerated completely, 8 x 2048 words and all 65536 numbers, natively; bounded: words not in a list (random near misses)'),
  "C05": dict(level="other", kani=["bip39"], native=["bip39"],
    functions=["Mnemonics::to_string", "Mnemonics::from_string", "MnemonicString::new", "Mnemonics::from_mnemonics", "MnemonicIndex::to_word", "MnemonicIndex::from_word"],
    trust=[STD],
    bounds='proved: printing 9 and 24 words of any numbers; bounded: parsing and the other word counts, natively over all eight languages and two foreign ones (random texts)'),
  "C06": dict(level="other", kani=["bip39"], native=["bip39"],
    functions=["Seed::from_mnemonic_string", "Seed::from_slice", "Seed::from_bytes", "Seed::as_ref", "Mnemonics::to_string"],
    trust=[HASH, STD],
    bounds='proved: the arguments of PBKDF2 for phrases of 9 words and passwords of up to 6 bytes, 64-byte seeds, refusal of every other length up to 96; bounded: real phrases and longer passwords natively with the real PBKDF2'),
  "C07": dict(level="other", kani=["bip39"], native=["bip39"],
    functions=["hex::encode", "hex::decode"],
    trust=[STD],
    bounds='proved: encoding of 0 to 8 bytes, decoding of all ASCII texts of 0, 1, 3, 5, 6 bytes; bounded: any text of up to 80 characters natively (random)'),
  "C08": dict(level="proof", kani=["bip39"], native=["bip39"],
    functions=["Entropy::drop", "Seed::drop", "securemem::zero", "Entropy::generate", "Entropy::new", "Entropy::as_mut"],
    trust=[STD, "that the compiler keeps the erasing writes is not proved (they are volatile); an optimized native run looks at the released memory"]),
  "C09": dict(level="proof", kani=["secp"], native=["secp"],
    functions=["XPrv::from_data", "XPrv::serialize"], trust=[HASH, SECP, STD]),
  "C10": dict(level="proof", kani=["secp"], native=["secp"],
    functions=["XPrv::from_seed", "XPrv::derive", "XPrv::public", "XPub::serialize_compressed", "XPub::compressed_sha256", "XPrv::from_data", "XPrv::serialize"],
    trust=[HASH, SECP, STD, "two left halves in a row out of range: the proof covers one skipped number; the induction over several is by the recursive call alone"]),
  "C11": dict(level="proof", kani=["secp", "keychain"], native=["secp", "keychain"],
    functions=["XPrv::sign", "XPub::verify", "XPrv::public", "XPub::new"],
    trust=[HASH, SECP, STD, "the data to sign is at most 9 bytes in the proof (it only reaches the Keccak model); longer data in the native runs"]),
  "C12": dict(level="proof", kani=["keychain"], native=["keychain"],
    functions=["networks::bitcoin::KeyPath::bip44", "KeyPath::bip49", "KeyPath::bip84", "networks::bitcoin::KeyPath::with_purpose", "networks::cardano::KeyPath::new", "networks::ethereum::KeyPath::new", "networks::ethereum::KeyPath::new_metamask", "key_path::bip44::check_change_address (and the other checks)"],
    trust=[COPY]),
  "C13": dict(level="proof", kani=["keychain"], native=["keychain"],
    functions=["ethereum::Key::{from_data,derive,pub_key,sign,verify}", "bitcoin::Key::{from_data,derive,pub_key,sign,verify}", "cardano::Key::{from_data,derive,pub_key,sign,verify}", "KeyFactory::key_from_data (3)"],
    trust=[COPY, BIP32, ED, "the data to sign is 9 bytes in the proof (it only reaches the models); longer data in the native runs"]),
  "C14": dict(level="other", kani=["keychain"], native=["keychain"],
    functions=["GenericKeyPath::from_str", "GenericKeyPath::fmt"], trust=[COPY, STD],
    bounds='bounded: random texts and paths, natively'),
  "C15": dict(level="other", kani=["keychain"], native=["keychain"],
    functions=["crypt::encrypt", "crypt::decrypt"], trust=[COPY, HASH, STD], native_s=12,
    bounds='proved with uninterpreted cipher and key derivation: data of 0, 1, 9 (encrypt) and 0, 5 bytes (round trip) with passwords of fixed lengths; bounded: other lengths natively with the real primitives'),
  "C16": dict(level="other", kani=["keychain"], native=["keychain"],
    functions=["crypt::decrypt"], trust=[COPY, HASH, STD], native_s=12,
    bounds='proved with uninterpreted cipher and key derivation: inputs of 60, 61 and 69 bytes, and every input below 60; bounded: other lengths natively with the real primitives'),
  "C17": dict(level="other", kani=["keychain"], native=["keychain"],
    functions=["KeychainManager::{keychain_data_from_seed,keychain_data_from_mnemonic,keychain_from_data,seed_from_data,new_keychain_data,keychain_data_from_bytes}"], trust=[COPY, STD], native_s=15,
    bounds='bounded: random seeds, phrases, passwords and sets of networks, natively'),
  "C18": dict(level="other", kani=["keychain"], native=["keychain"],
    functions=["KeychainManager::change_password"], trust=[COPY, STD], native_s=15,
    bounds='bounded: random contents, passwords and chains, natively'),
  "C19": dict(level="other", kani=["keychain"], native=["keychain"],
    functions=["KeychainManager::{add_network,seed_from_data,keychain_data_from_bytes}"], trust=[COPY, STD], native_s=15,
    bounds='bounded: random wallets, network numbers and sets of networks, natively'),
  "C20": dict(level="other", kani=["keychain"], native=["keychain"],
    functions=["KeychainManager::keychain_from_data", "Keychain::{new,has_network,networks,pub_key,sign,verify,_pk}", "Error::from_key_error"], trust=[COPY, STD], native_s=15,
    bounds='bounded: random wallets, sets of networks and requests, natively'),
  "C21": dict(level="other", kani=["keychain"], native=["keychain"],
    functions=["KeychainManager::{with_factories,calculate_seed_size,generate_mnemonic}", "mnemonic::generate_entropy"], trust=[COPY, STD], native_s=15,
    bounds='bounded: random bounds for 0 to 4 networks, random sources and languages, natively'),
  "C22": dict(level="other", kani=["keychain"], native=["keychain"],
    functions=["VersionedData::{new,from_bytes,to_bytes,get_data}", "WalletDataV2::from_v1", "data::serialize::*", "KeychainManager::{retrieve_mnemonic,get_keys_data}"], trust=[COPY, STD], native_s=15,
    bounds='bounded: random contents, absent parts and malformed data, natively'),
  "C23": dict(level="proof", kani=["keychain"], native=["keychain"],
    functions=["cardano::KeyFactory::{key_data_from_seed,key_from_data}", "cardano::Key::{data_from_seed,from_data,verify}"], trust=[COPY, HASH, ED, STD]),
  "C24": dict(level="other", kani=["capi"], native=["capi"],
    functions=["every function of the C interface that hands something over (through keychain_c::manager, keychain_c::keychain_c, key_path, bitcoin, cardano, ethereum)", "delete_{data,string,error,networks,key_backup,mnemonic_info,keychain,keychain_manager}", "DataPtr/NetworksPtr/KeyDataBackupPtr/MnemonicInfoPtr/ErrorPtr/KeychainPtr/KeychainManagerPtr: Ptr::{rust_ref,free}, From"], trust=[CAPI, COPY, STD], native_s=25,
    bounds="proved: every call with every answer of the library below it (one value of fixed length, each of the 12 errors with symbolic contents, a panic), what it hands over, and its deletion twice, except handing over a manager; bounded: leaks and use after release, every length and real contents, by the same contracts run natively under a recording allocator"),
  "C25": dict(level="other", kani=["capi"], native=["capi"],
    functions=["every extern C function returning bool", "utils::panic::{handle_exception,handle_exception_result}", "CResult::response", "ErrorPtr::{new,panic,error_type}", "delete_error"], trust=[CAPI, COPY, STD], native_s=25,
    bounds="proved for every C call and every answer of the library (value, each error, panic) with a fixed message text; bounded: the message texts (zero bytes, non-ASCII, empty), panics with other payloads and keychain_manager_new, natively with real unwinding"),
  "C26": dict(level="other", kani=["capi"], native=["capi"],
    functions=["ErrorPtr::error_type", "From<Language> (both directions)", "NetworksPtr::from", "From<dyn KeyPath> for KeyPath", "keypath_* (7)", "keychain_* (4)", "keychain_manager_* (11)", "NETWORK_* (3)"], trust=[CAPI, COPY, STD], native_s=25,
    bounds="proved for all error kinds, languages, network numbers, paths and path constructor arguments, with fixed texts and byte strings as arguments; message texts and real texts natively (bounded)"),
}
for k, t in titles().items():
  if k in PROPS:
    PROPS[k]["title"] = t

NOT_APPLICABLE = {}
