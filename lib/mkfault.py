"""Generates trampolines for the crypto-library functions that the code under test calls and whose failure is
reported by a zero / NULL return value.  Each trampoline asks verif_fault_hook(index) whether to fail."""
import re, subprocess, sys
lib, out = sys.argv[1], sys.argv[2]
nm = subprocess.run(["nm", "-u", lib], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True).stdout
und = sorted(set(re.findall(r"\bU (\w+)", nm)))
INC = re.compile(r"^(EVP_(CIPHER_CTX_new|CIPHER_CTX_reset|CIPHER_CTX_copy|CIPHER_CTX_ctrl|CIPHER_CTX_set_padding|CIPHER_CTX_set_key_length|EncryptInit_ex|EncryptInit|EncryptUpdate|EncryptFinal_ex|EncryptFinal|DecryptInit_ex|DecryptInit|DecryptUpdate|DecryptFinal_ex|DecryptFinal|CipherInit_ex|CipherUpdate|CipherFinal_ex|"
                 r"MD_CTX_new|MD_CTX_create|DigestInit_ex|DigestInit|DigestUpdate|DigestFinal_ex|DigestFinal|Digest|DigestSignInit|DigestSignUpdate|DigestSignFinal|DigestSign|"
                 r"PKEY_new|PKEY_CTX_new|PKEY_CTX_new_id|PKEY_CTX_new_from_name|PKEY_CTX_new_from_pkey|PKEY_sign_init|PKEY_sign|PKEY_derive_init|PKEY_derive_set_peer|PKEY_derive|PKEY_decrypt_init|PKEY_decrypt|PKEY_keygen_init|PKEY_keygen|PKEY_generate|PKEY_paramgen_init|PKEY_fromdata_init|PKEY_fromdata|PKEY_new_raw_private_key|PKEY_new_raw_public_key|PKEY_get_raw_public_key|PKEY_get_raw_private_key|PKEY_get_bn_param|PKEY_get_octet_string_param|"
                 r"PKEY_CTX_set_rsa_padding|PKEY_CTX_set_signature_md|PKEY_CTX_set_rsa_mgf1_md|PKEY_CTX_set_rsa_oaep_md|PKEY_CTX_set_rsa_pss_saltlen|PKEY_CTX_set0_rsa_oaep_label|PKEY_CTX_set_params|PKEY_CTX_set_ec_paramgen_curve_nid|PKEY_CTX_set_rsa_keygen_bits|"
                 r"MAC_fetch|MAC_CTX_new|MAC_init|MAC_update|MAC_final)"
                 r"|BN_(new|CTX_new|bin2bn|bn2binpad|mod_exp|mod_inverse|rand_range|sub|mod_sub|mod_mul|mod_sqr|lebin2bn)|EC_(POINT_new|POINT_mul|POINT_add|POINT_invert|POINT_oct2point|POINT_point2oct|POINT_set_affine_coordinates|POINT_get_affine_coordinates|GROUP_new_by_curve_name|KEY_new_by_curve_name|KEY_generate_key)"
                 r"|OSSL_PARAM_BLD_(new|push_BN|push_utf8_string|push_octet_string|push_size_t|push_uint|push_int|to_param)|RAND_bytes|RAND_priv_bytes|CMAC_(CTX_new|Init|Update|Final)|HMAC_(CTX_new|Init_ex|Update|Final)|HMAC|SHA256|SHA1|SHA384|SHA512"
                 r"|d2i_\w+|i2d_\w+|ECDSA_SIG_new|ECDSA_do_sign|DH_new|DH_generate_key|RSA_new|RSA_generate_key_ex|OPENSSL_memdup|CRYPTO_malloc|CRYPTO_zalloc)$")
sel = [u for u in und if INC.match(u)]
with open(out, "w") as f:
    f.write("    .text\n")
    for i, n in enumerate(sel):
        f.write(f"""    .globl __wrap_{n}
    .type __wrap_{n}, @function
__wrap_{n}:
    pushq %rbp
    movq %rsp, %rbp
    pushq %rdi
    pushq %rsi
    pushq %rdx
    pushq %rcx
    pushq %r8
    pushq %r9
    pushq %rax
    subq $8, %rsp
    movl ${i}, %edi
    call verif_fault_hook@PLT
    addq $8, %rsp
    testl %eax, %eax
    popq %rax
    popq %r9
    popq %r8
    popq %rcx
    popq %rdx
    popq %rsi
    popq %rdi
    popq %rbp
    jne 1f
    jmp __real_{n}@PLT
1:  xorl %eax, %eax
    ret
    .size __wrap_{n}, .-__wrap_{n}
""")
    f.write("    .data\n    .globl verif_fault_names\nverif_fault_names:\n")
    for n in sel: f.write(f"    .quad .Ls_{n}\n")
    f.write("    .quad 0\n    .globl verif_fault_count\nverif_fault_count: .quad %d\n    .section .rodata\n" % len(sel))
    for n in sel: f.write(f".Ls_{n}: .asciz \"{n}\"\n")
    f.write("    .section .note.GNU-stack,\"\",@progbits\n")
with open(out + ".flags", "w") as f:
    for n in sel: f.write(f"-Wl,--wrap={n}\n")
