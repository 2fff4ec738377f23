use crate::oracle::*;
use crate::util::hex;

// (mode, length, first 32 and the bytes 100..116 of the stream); input bytes
// are i % 251, the key is bytes 0..32. Recorded from the Rust, C and Python
// implementations of the unchanged tree, which agreed.
pub const KATS: &[(u8, usize, &str, &str)] = &[
    (0, 0, "af1349b9f5f9a1a6a0404dea36dcc9499bcb25c9adc112b7cc9a93cae41f3262", "caea7c33a6eb981b911536724ef3f698"),
    (0, 1, "2d3adedff11b61f14c886e35afa036736dcd87a74d27b5c1510225d0f592e213", "cd173d0e4d0084c708860926c6a0e0bd"),
    (0, 64, "b71fd3859344cfe7140aad3312be7723621747df07cbc76e9c4d03aede87f401", "32a90f3625d79bd607017ccd69c060c0"),
    (0, 65, "c2837cf36e04bf6b214a55097eaf2b6d8199b6dc8059cf420ea8513cbf9731fa", "a0edf356dab9ec40360f4270bc505a86"),
    (0, 1000, "a50879e83f563ceb95d7be98de3c6d4c0aea653d839e6cb67f2697b30ea7b17a", "4ff004f15c87f0fa895945c43a92b787"),
    (0, 2048, "285b78506e4915460ca41b56bf025cf977133a688843ae6578a0d43335f9d1b3", "628dc9cfe66d3a3fd5705b9ffd741dbd"),
    (0, 2049, "f39ea8327b86fd2e9ce51aee311750372344cbc6124fcb061883b9912e232dc5", "2abb41dcb740e68696f237e53edeee43"),
    (0, 4096, "677dba4cd37ba36b4e94ce042594c4fd0912015b41c6d7be2b7fa29760ea02a0", "e6fa85dbd8829e67d50f164f48fa5b8e"),
    (0, 4097, "d4a4b7d9c95be84c611a8070c6e315b3b76177bd90763d3e3aeef1016a52d1ac", "36d656b4f9ee0c55a9483d621184a6fe"),
    (0, 10240, "af466d06f606d2a479affd6545ef51c6ff6678bfe2c6d9f901da0e9505b53929", "10c56e6f90cef322e718b54b58ce54f4"),
    (0, 16385, "8f2f669f1fe30be78d41ce7d18ccbfc42c6745ddc4b0193ed36571e6c90de6a1", "6264611b910270733bb426302623f33a"),
    (0, 50000, "187ea50549c2a1674c5cec822ba44c6c0ac11f53964f268d675f5322345b5ffa", "e97fdfaa73933f0a8b063d61da645ce8"),
    (0, 131072, "0aab17326f663b56b3074258528e94bf66a7eca0553732d52cbb03f6ad24ac0e", "7ace8b3b071204f249a0a09ed89b1498"),
    (1, 0, "73492b19995d71cdb1e9d74decc09809eb732f1b00bc95c27cb15f9dd4d6478f", "1a67d03ccfcbd27c5ced8744802b1a97"),
    (1, 1, "d08b45c6b127ee94f3f8527a0b82a5f80be1695a0eaec6022e772c0eb95a7e8b", "e6443b0e0d5747889ae084ac07175c91"),
    (1, 64, "c70a0ae2a15a86203b7ec80b93117966c446d0dcbecd97a28ca0ffbc2fa2ac31", "4ee93797e193c7447b91d10711b43a8b"),
    (1, 65, "69200747fc463358be8124a0a35255a45d88c66ea2dd486175d51d13026e3460", "881ffb5fc9d95754ca9909ed8f4fa402"),
    (1, 1000, "21a976c85a09b08bbe9cffb43fd45e0c755c6f64531a56a51908529529068c54", "acc7a73dca702cf3685ab1324041be8c"),
    (1, 2048, "ccb3cda76cf24fe7feed365d3308a164a0d60a275bee00e210d0ac142bad41bf", "e8087d50e3837bda9f9e2d92d55066e7"),
    (1, 2049, "034e3f57f27feb11fd8cd43c943dd12a07b3c47f217a7fdcc57824d92a015d16", "0856ac9e17d007ddb0b3678f897ff6ee"),
    (1, 4096, "6f2c7a8d5be737ec06765b13c87db4a04be643fabea903dda6cd253094f9d13f", "feaf77f042c35ad8e5c784021e44b1b1"),
    (1, 4097, "50bcb73a7449ec692efe3089e203a6a5429034984b1bb5cbab2fb2e8ee95897a", "a540b75b579a8072a841c036c9d148a3"),
    (1, 10240, "c253fca566be21f24902b4272e4917ebebdbf85a72b866b605619f46c8973e2c", "90d0a4e6a0ac44f3506bcc01eea36b56"),
    (1, 16385, "f5a7b3b35a7a300319679887f3bc222eecf8dcb35bf922f1c22b8ed776f9a6df", "b5fd1f61fbfcc416c3d9c0a4ec8c6dfa"),
    (1, 50000, "e7d5ddd96a0a4a6fdca942ad66e0a066ac3ee7e16f0247bc07ead9767ec48b9a", "61dfc8cc124d6c07c7117f57aeb97ad5"),
    (1, 131072, "6a65f23e71d8a77ba74afd7e4868c0298af7530bbea855571120c89b1186417f", "474b44b1d01a2e0ba87a6e7594f30d48"),
    (2, 0, "66ea9ca6b89c79b4e47d3dac0bbf20ddd938f8ad01b15198ab12d72f6d236688", "4516f2076ad47d6bc7bf4e668ef6c48b"),
    (2, 1, "79a056971074156dbb74cd78ec0243157d14c5d9fa4677250b7d1428fec44331", "9eb6367bbcafa2c0232817b3add294c9"),
    (2, 64, "3a202b5dcf0caa79d55bfd9cb7ab06a9775f5516853476d2e36fb90817923ad9", "e512d61d2feae117ee1cbf37e03cd38d"),
    (2, 65, "99ad75d26ef9f4775e5f970a2025444734d0749a96b5b9a0992175017621f7c5", "b511bc1226f3c0853f7bdec2b0585256"),
    (2, 1000, "25d33d2fb1264e8e0c37e60c0fd89c8571bc24163d3ad25a5103529b0f75a02b", "f74558cd19c53aeb185f1dd0af95245c"),
    (2, 2048, "a98c0dd4359e20ce4fb897ac042463e613488659780354fdad8eec218a81ec9d", "02d2689238e085030fcb4a6a8231e32d"),
    (2, 2049, "1f17eac2f7fd9f5b641e09cbffaa314eee00cd8cc5dffeb375ec6dd43f63004b", "b987ce29ea38b55f2dc4fe77d737e983"),
    (2, 4096, "14265681296ed2cb8b4ecc126bb28e27a0188335ae780f3f4b90bb6664fbb427", "b90ae630fa5b232830ae563bfeae36d2"),
    (2, 4097, "d488bae365a0587a47c4a0b35f532d06588525a2a17a23feec9f08e6d440144c", "3fe4c2e539de2371678401634c62d816"),
    (2, 10240, "94379a97e274961a1e396e5f81474881f44721b1476d025cc266915eb074b0a4", "e72d8d1ee3eb66dae1741acd57c5041c"),
    (2, 16385, "3280821124a7a75f7b68dc9eccae8da210f731a4716c898cca4482eae8138798", "d208f52bc23f8fa095f7f87393250440"),
    (2, 50000, "3790bbae430b3e767b2da4e209dc236b0282609a571672350a29af3396822a7a", "078e762df7c3ef8d1b0f6705470e5398"),
    (2, 131072, "c41272f609217c18275e33cf15d9d0fd330fada95e8c7e828b43d5c7ca87330e", "8fc2543fcb38a8a744b3b6ea57792574"),
];

fn mode(k: u8) -> Mode {
    let mut key = [0; 32];
    for i in 0..32 {
        key[i] = i as u8;
    }
    Mode { kind: k, key: if k == 0 { [0; 32] } else { key } }
}

pub fn check() {
    for (k, n, a, b) in KATS {
        let data: Vec<u8> = (0..*n).map(|i| (i % 251) as u8).collect();
        let s = root(&mode(*k), &data).root_bytes(116);
        assert_eq!(hex(&s[..32]), *a, "known answer, mode {} length {}", k, n);
        assert_eq!(hex(&s[100..]), *b, "known answer, mode {} length {}", k, n);
    }
}

pub fn print() {
    for k in 0..3 {
        for n in [0usize, 1, 64, 65, 1000, 2048, 2049, 4096, 4097, 10240, 16385, 50000, 131072] {
            let data: Vec<u8> = (0..n).map(|i| (i % 251) as u8).collect();
            let s = root(&mode(k), &data).root_bytes(116);
            println!("    ({}, {}, \"{}\", \"{}\"),", k, n, hex(&s[..32]), hex(&s[100..]));
        }
    }
}
