// Code generated by tools/mkgraphs.py; DO NOT EDIT.
package graphs

type A0 struct {
	X  int
	E0 string
	E1 string
}
type A1 struct {
	X  int
	E0 string
	E1 *A1
}
type A2 struct {
	X  int
	E0 string
	E1 []A2
}
type A3 struct {
	X  int
	E0 string
	E1 map[string]A3
}
type A4 struct {
	X  int
	E0 string
	E1 []*A4
}
type A5 struct {
	X  int
	E0 string
	E1 map[string]*A5
}
type A6 struct {
	X  int
	E0 string
	*A6
}
type A7 struct {
	X  int
	E0 *A7
	E1 string
}
type A8 struct {
	X  int
	E0 *A8
	E1 *A8
}
type A9 struct {
	X  int
	E0 *A9
	E1 []A9
}
type A10 struct {
	X  int
	E0 *A10
	E1 map[string]A10
}
type A11 struct {
	X  int
	E0 *A11
	E1 []*A11
}
type A12 struct {
	X  int
	E0 *A12
	E1 map[string]*A12
}
type A13 struct {
	X  int
	E0 *A13
	*A13
}
type A14 struct {
	X  int
	E0 []A14
	E1 string
}
type A15 struct {
	X  int
	E0 []A15
	E1 *A15
}
type A16 struct {
	X  int
	E0 []A16
	E1 []A16
}
type A17 struct {
	X  int
	E0 []A17
	E1 map[string]A17
}
type A18 struct {
	X  int
	E0 []A18
	E1 []*A18
}
type A19 struct {
	X  int
	E0 []A19
	E1 map[string]*A19
}
type A20 struct {
	X  int
	E0 []A20
	*A20
}
type A21 struct {
	X  int
	E0 map[string]A21
	E1 string
}
type A22 struct {
	X  int
	E0 map[string]A22
	E1 *A22
}
type A23 struct {
	X  int
	E0 map[string]A23
	E1 []A23
}
type A24 struct {
	X  int
	E0 map[string]A24
	E1 map[string]A24
}
type A25 struct {
	X  int
	E0 map[string]A25
	E1 []*A25
}
type A26 struct {
	X  int
	E0 map[string]A26
	E1 map[string]*A26
}
type A27 struct {
	X  int
	E0 map[string]A27
	*A27
}
type A28 struct {
	X  int
	E0 []*A28
	E1 string
}
type A29 struct {
	X  int
	E0 []*A29
	E1 *A29
}
type A30 struct {
	X  int
	E0 []*A30
	E1 []A30
}
type A31 struct {
	X  int
	E0 []*A31
	E1 map[string]A31
}
type A32 struct {
	X  int
	E0 []*A32
	E1 []*A32
}
type A33 struct {
	X  int
	E0 []*A33
	E1 map[string]*A33
}
type A34 struct {
	X  int
	E0 []*A34
	*A34
}
type A35 struct {
	X  int
	E0 map[string]*A35
	E1 string
}
type A36 struct {
	X  int
	E0 map[string]*A36
	E1 *A36
}
type A37 struct {
	X  int
	E0 map[string]*A37
	E1 []A37
}
type A38 struct {
	X  int
	E0 map[string]*A38
	E1 map[string]A38
}
type A39 struct {
	X  int
	E0 map[string]*A39
	E1 []*A39
}
type A40 struct {
	X  int
	E0 map[string]*A40
	E1 map[string]*A40
}
type A41 struct {
	X  int
	E0 map[string]*A41
	*A41
}
type A42 struct {
	X int
	*A42
	E1 string
}
type A43 struct {
	X int
	*A43
	E1 *A43
}
type A44 struct {
	X int
	*A44
	E1 []A44
}
type A45 struct {
	X int
	*A45
	E1 map[string]A45
}
type A46 struct {
	X int
	*A46
	E1 []*A46
}
type A47 struct {
	X int
	*A47
	E1 map[string]*A47
}
type B0a struct {
	X  int
	E0 string
	E1 *B0b
}
type B0b struct {
	X  int
	E0 string
	E1 string
}
type B1a struct {
	X  int
	E0 string
	E1 *B1b
}
type B1b struct {
	X  int
	E0 string
	E1 *B1a
}
type B2a struct {
	X  int
	E0 string
	E1 *B2b
}
type B2b struct {
	X  int
	E0 string
	E1 *B2b
}
type B3a struct {
	X  int
	E0 string
	E1 *B3b
}
type B3b struct {
	X  int
	E0 string
	E1 []B3a
}
type B4a struct {
	X  int
	E0 string
	E1 *B4b
}
type B4b struct {
	X  int
	E0 string
	E1 []B4b
}
type B5a struct {
	X  int
	E0 string
	E1 *B5b
}
type B5b struct {
	X  int
	E0 *B5a
	E1 string
}
type B6a struct {
	X  int
	E0 string
	E1 *B6b
}
type B6b struct {
	X  int
	E0 *B6a
	E1 *B6a
}
type B7a struct {
	X  int
	E0 string
	E1 *B7b
}
type B7b struct {
	X  int
	E0 *B7a
	E1 *B7b
}
type B8a struct {
	X  int
	E0 string
	E1 *B8b
}
type B8b struct {
	X  int
	E0 *B8a
	E1 []B8a
}
type B9a struct {
	X  int
	E0 string
	E1 *B9b
}
type B9b struct {
	X  int
	E0 *B9a
	E1 []B9b
}
type B10a struct {
	X  int
	E0 string
	E1 *B10b
}
type B10b struct {
	X  int
	E0 *B10b
	E1 string
}
type B11a struct {
	X  int
	E0 string
	E1 *B11b
}
type B11b struct {
	X  int
	E0 *B11b
	E1 *B11a
}
type B12a struct {
	X  int
	E0 string
	E1 *B12b
}
type B12b struct {
	X  int
	E0 *B12b
	E1 *B12b
}
type B13a struct {
	X  int
	E0 string
	E1 *B13b
}
type B13b struct {
	X  int
	E0 *B13b
	E1 []B13a
}
type B14a struct {
	X  int
	E0 string
	E1 *B14b
}
type B14b struct {
	X  int
	E0 *B14b
	E1 []B14b
}
type B15a struct {
	X  int
	E0 string
	E1 *B15b
}
type B15b struct {
	X  int
	E0 []B15a
	E1 string
}
type B16a struct {
	X  int
	E0 string
	E1 *B16b
}
type B16b struct {
	X  int
	E0 []B16a
	E1 *B16a
}
type B17a struct {
	X  int
	E0 string
	E1 *B17b
}
type B17b struct {
	X  int
	E0 []B17a
	E1 *B17b
}
type B18a struct {
	X  int
	E0 string
	E1 *B18b
}
type B18b struct {
	X  int
	E0 []B18a
	E1 []B18a
}
type B19a struct {
	X  int
	E0 string
	E1 *B19b
}
type B19b struct {
	X  int
	E0 []B19a
	E1 []B19b
}
type B20a struct {
	X  int
	E0 string
	E1 *B20b
}
type B20b struct {
	X  int
	E0 []B20b
	E1 string
}
type B21a struct {
	X  int
	E0 string
	E1 *B21b
}
type B21b struct {
	X  int
	E0 []B21b
	E1 *B21a
}
type B22a struct {
	X  int
	E0 string
	E1 *B22b
}
type B22b struct {
	X  int
	E0 []B22b
	E1 *B22b
}
type B23a struct {
	X  int
	E0 string
	E1 *B23b
}
type B23b struct {
	X  int
	E0 []B23b
	E1 []B23a
}
type B24a struct {
	X  int
	E0 string
	E1 *B24b
}
type B24b struct {
	X  int
	E0 []B24b
	E1 []B24b
}
type B25a struct {
	X  int
	E0 string
	E1 []B25b
}
type B25b struct {
	X  int
	E0 string
	E1 string
}
type B26a struct {
	X  int
	E0 string
	E1 []B26b
}
type B26b struct {
	X  int
	E0 string
	E1 *B26a
}
type B27a struct {
	X  int
	E0 string
	E1 []B27b
}
type B27b struct {
	X  int
	E0 string
	E1 *B27b
}
type B28a struct {
	X  int
	E0 string
	E1 []B28b
}
type B28b struct {
	X  int
	E0 string
	E1 []B28a
}
type B29a struct {
	X  int
	E0 string
	E1 []B29b
}
type B29b struct {
	X  int
	E0 string
	E1 []B29b
}
type B30a struct {
	X  int
	E0 string
	E1 []B30b
}
type B30b struct {
	X  int
	E0 *B30a
	E1 string
}
type B31a struct {
	X  int
	E0 string
	E1 []B31b
}
type B31b struct {
	X  int
	E0 *B31a
	E1 *B31a
}
type B32a struct {
	X  int
	E0 string
	E1 []B32b
}
type B32b struct {
	X  int
	E0 *B32a
	E1 *B32b
}
type B33a struct {
	X  int
	E0 string
	E1 []B33b
}
type B33b struct {
	X  int
	E0 *B33a
	E1 []B33a
}
type B34a struct {
	X  int
	E0 string
	E1 []B34b
}
type B34b struct {
	X  int
	E0 *B34a
	E1 []B34b
}
type B35a struct {
	X  int
	E0 string
	E1 []B35b
}
type B35b struct {
	X  int
	E0 *B35b
	E1 string
}
type B36a struct {
	X  int
	E0 string
	E1 []B36b
}
type B36b struct {
	X  int
	E0 *B36b
	E1 *B36a
}
type B37a struct {
	X  int
	E0 string
	E1 []B37b
}
type B37b struct {
	X  int
	E0 *B37b
	E1 *B37b
}
type B38a struct {
	X  int
	E0 string
	E1 []B38b
}
type B38b struct {
	X  int
	E0 *B38b
	E1 []B38a
}
type B39a struct {
	X  int
	E0 string
	E1 []B39b
}
type B39b struct {
	X  int
	E0 *B39b
	E1 []B39b
}
type B40a struct {
	X  int
	E0 string
	E1 []B40b
}
type B40b struct {
	X  int
	E0 []B40a
	E1 string
}
type B41a struct {
	X  int
	E0 string
	E1 []B41b
}
type B41b struct {
	X  int
	E0 []B41a
	E1 *B41a
}
type B42a struct {
	X  int
	E0 string
	E1 []B42b
}
type B42b struct {
	X  int
	E0 []B42a
	E1 *B42b
}
type B43a struct {
	X  int
	E0 string
	E1 []B43b
}
type B43b struct {
	X  int
	E0 []B43a
	E1 []B43a
}
type B44a struct {
	X  int
	E0 string
	E1 []B44b
}
type B44b struct {
	X  int
	E0 []B44a
	E1 []B44b
}
type B45a struct {
	X  int
	E0 string
	E1 []B45b
}
type B45b struct {
	X  int
	E0 []B45b
	E1 string
}
type B46a struct {
	X  int
	E0 string
	E1 []B46b
}
type B46b struct {
	X  int
	E0 []B46b
	E1 *B46a
}
type B47a struct {
	X  int
	E0 string
	E1 []B47b
}
type B47b struct {
	X  int
	E0 []B47b
	E1 *B47b
}
type B48a struct {
	X  int
	E0 string
	E1 []B48b
}
type B48b struct {
	X  int
	E0 []B48b
	E1 []B48a
}
type B49a struct {
	X  int
	E0 string
	E1 []B49b
}
type B49b struct {
	X  int
	E0 []B49b
	E1 []B49b
}
type B50a struct {
	X  int
	E0 *B50a
	E1 *B50b
}
type B50b struct {
	X  int
	E0 string
	E1 string
}
type B51a struct {
	X  int
	E0 *B51a
	E1 *B51b
}
type B51b struct {
	X  int
	E0 string
	E1 *B51a
}
type B52a struct {
	X  int
	E0 *B52a
	E1 *B52b
}
type B52b struct {
	X  int
	E0 string
	E1 *B52b
}
type B53a struct {
	X  int
	E0 *B53a
	E1 *B53b
}
type B53b struct {
	X  int
	E0 string
	E1 []B53a
}
type B54a struct {
	X  int
	E0 *B54a
	E1 *B54b
}
type B54b struct {
	X  int
	E0 string
	E1 []B54b
}
type B55a struct {
	X  int
	E0 *B55a
	E1 *B55b
}
type B55b struct {
	X  int
	E0 *B55a
	E1 string
}
type B56a struct {
	X  int
	E0 *B56a
	E1 *B56b
}
type B56b struct {
	X  int
	E0 *B56a
	E1 *B56a
}
type B57a struct {
	X  int
	E0 *B57a
	E1 *B57b
}
type B57b struct {
	X  int
	E0 *B57a
	E1 *B57b
}
type B58a struct {
	X  int
	E0 *B58a
	E1 *B58b
}
type B58b struct {
	X  int
	E0 *B58a
	E1 []B58a
}
type B59a struct {
	X  int
	E0 *B59a
	E1 *B59b
}
type B59b struct {
	X  int
	E0 *B59a
	E1 []B59b
}
type B60a struct {
	X  int
	E0 *B60a
	E1 *B60b
}
type B60b struct {
	X  int
	E0 *B60b
	E1 string
}
type B61a struct {
	X  int
	E0 *B61a
	E1 *B61b
}
type B61b struct {
	X  int
	E0 *B61b
	E1 *B61a
}
type B62a struct {
	X  int
	E0 *B62a
	E1 *B62b
}
type B62b struct {
	X  int
	E0 *B62b
	E1 *B62b
}
type B63a struct {
	X  int
	E0 *B63a
	E1 *B63b
}
type B63b struct {
	X  int
	E0 *B63b
	E1 []B63a
}
type B64a struct {
	X  int
	E0 *B64a
	E1 *B64b
}
type B64b struct {
	X  int
	E0 *B64b
	E1 []B64b
}
type B65a struct {
	X  int
	E0 *B65a
	E1 *B65b
}
type B65b struct {
	X  int
	E0 []B65a
	E1 string
}
type B66a struct {
	X  int
	E0 *B66a
	E1 *B66b
}
type B66b struct {
	X  int
	E0 []B66a
	E1 *B66a
}
type B67a struct {
	X  int
	E0 *B67a
	E1 *B67b
}
type B67b struct {
	X  int
	E0 []B67a
	E1 *B67b
}
type B68a struct {
	X  int
	E0 *B68a
	E1 *B68b
}
type B68b struct {
	X  int
	E0 []B68a
	E1 []B68a
}
type B69a struct {
	X  int
	E0 *B69a
	E1 *B69b
}
type B69b struct {
	X  int
	E0 []B69a
	E1 []B69b
}
type B70a struct {
	X  int
	E0 *B70a
	E1 *B70b
}
type B70b struct {
	X  int
	E0 []B70b
	E1 string
}
type B71a struct {
	X  int
	E0 *B71a
	E1 *B71b
}
type B71b struct {
	X  int
	E0 []B71b
	E1 *B71a
}
type B72a struct {
	X  int
	E0 *B72a
	E1 *B72b
}
type B72b struct {
	X  int
	E0 []B72b
	E1 *B72b
}
type B73a struct {
	X  int
	E0 *B73a
	E1 *B73b
}
type B73b struct {
	X  int
	E0 []B73b
	E1 []B73a
}
type B74a struct {
	X  int
	E0 *B74a
	E1 *B74b
}
type B74b struct {
	X  int
	E0 []B74b
	E1 []B74b
}
type B75a struct {
	X  int
	E0 *B75a
	E1 []B75b
}
type B75b struct {
	X  int
	E0 string
	E1 string
}
type B76a struct {
	X  int
	E0 *B76a
	E1 []B76b
}
type B76b struct {
	X  int
	E0 string
	E1 *B76a
}
type B77a struct {
	X  int
	E0 *B77a
	E1 []B77b
}
type B77b struct {
	X  int
	E0 string
	E1 *B77b
}
type B78a struct {
	X  int
	E0 *B78a
	E1 []B78b
}
type B78b struct {
	X  int
	E0 string
	E1 []B78a
}
type B79a struct {
	X  int
	E0 *B79a
	E1 []B79b
}
type B79b struct {
	X  int
	E0 string
	E1 []B79b
}
type B80a struct {
	X  int
	E0 *B80a
	E1 []B80b
}
type B80b struct {
	X  int
	E0 *B80a
	E1 string
}
type B81a struct {
	X  int
	E0 *B81a
	E1 []B81b
}
type B81b struct {
	X  int
	E0 *B81a
	E1 *B81a
}
type B82a struct {
	X  int
	E0 *B82a
	E1 []B82b
}
type B82b struct {
	X  int
	E0 *B82a
	E1 *B82b
}
type B83a struct {
	X  int
	E0 *B83a
	E1 []B83b
}
type B83b struct {
	X  int
	E0 *B83a
	E1 []B83a
}
type B84a struct {
	X  int
	E0 *B84a
	E1 []B84b
}
type B84b struct {
	X  int
	E0 *B84a
	E1 []B84b
}
type B85a struct {
	X  int
	E0 *B85a
	E1 []B85b
}
type B85b struct {
	X  int
	E0 *B85b
	E1 string
}
type B86a struct {
	X  int
	E0 *B86a
	E1 []B86b
}
type B86b struct {
	X  int
	E0 *B86b
	E1 *B86a
}
type B87a struct {
	X  int
	E0 *B87a
	E1 []B87b
}
type B87b struct {
	X  int
	E0 *B87b
	E1 *B87b
}
type B88a struct {
	X  int
	E0 *B88a
	E1 []B88b
}
type B88b struct {
	X  int
	E0 *B88b
	E1 []B88a
}
type B89a struct {
	X  int
	E0 *B89a
	E1 []B89b
}
type B89b struct {
	X  int
	E0 *B89b
	E1 []B89b
}
type B90a struct {
	X  int
	E0 *B90a
	E1 []B90b
}
type B90b struct {
	X  int
	E0 []B90a
	E1 string
}
type B91a struct {
	X  int
	E0 *B91a
	E1 []B91b
}
type B91b struct {
	X  int
	E0 []B91a
	E1 *B91a
}
type B92a struct {
	X  int
	E0 *B92a
	E1 []B92b
}
type B92b struct {
	X  int
	E0 []B92a
	E1 *B92b
}
type B93a struct {
	X  int
	E0 *B93a
	E1 []B93b
}
type B93b struct {
	X  int
	E0 []B93a
	E1 []B93a
}
type B94a struct {
	X  int
	E0 *B94a
	E1 []B94b
}
type B94b struct {
	X  int
	E0 []B94a
	E1 []B94b
}
type B95a struct {
	X  int
	E0 *B95a
	E1 []B95b
}
type B95b struct {
	X  int
	E0 []B95b
	E1 string
}
type B96a struct {
	X  int
	E0 *B96a
	E1 []B96b
}
type B96b struct {
	X  int
	E0 []B96b
	E1 *B96a
}
type B97a struct {
	X  int
	E0 *B97a
	E1 []B97b
}
type B97b struct {
	X  int
	E0 []B97b
	E1 *B97b
}
type B98a struct {
	X  int
	E0 *B98a
	E1 []B98b
}
type B98b struct {
	X  int
	E0 []B98b
	E1 []B98a
}
type B99a struct {
	X  int
	E0 *B99a
	E1 []B99b
}
type B99b struct {
	X  int
	E0 []B99b
	E1 []B99b
}
type B100a struct {
	X  int
	E0 *B100b
	E1 string
}
type B100b struct {
	X  int
	E0 string
	E1 string
}
type B101a struct {
	X  int
	E0 *B101b
	E1 string
}
type B101b struct {
	X  int
	E0 string
	E1 *B101a
}
type B102a struct {
	X  int
	E0 *B102b
	E1 string
}
type B102b struct {
	X  int
	E0 string
	E1 *B102b
}
type B103a struct {
	X  int
	E0 *B103b
	E1 string
}
type B103b struct {
	X  int
	E0 string
	E1 []B103a
}
type B104a struct {
	X  int
	E0 *B104b
	E1 string
}
type B104b struct {
	X  int
	E0 string
	E1 []B104b
}
type B105a struct {
	X  int
	E0 *B105b
	E1 string
}
type B105b struct {
	X  int
	E0 *B105a
	E1 string
}
type B106a struct {
	X  int
	E0 *B106b
	E1 string
}
type B106b struct {
	X  int
	E0 *B106a
	E1 *B106a
}
type B107a struct {
	X  int
	E0 *B107b
	E1 string
}
type B107b struct {
	X  int
	E0 *B107a
	E1 *B107b
}
type B108a struct {
	X  int
	E0 *B108b
	E1 string
}
type B108b struct {
	X  int
	E0 *B108a
	E1 []B108a
}
type B109a struct {
	X  int
	E0 *B109b
	E1 string
}
type B109b struct {
	X  int
	E0 *B109a
	E1 []B109b
}
type B110a struct {
	X  int
	E0 *B110b
	E1 string
}
type B110b struct {
	X  int
	E0 *B110b
	E1 string
}
type B111a struct {
	X  int
	E0 *B111b
	E1 string
}
type B111b struct {
	X  int
	E0 *B111b
	E1 *B111a
}
type B112a struct {
	X  int
	E0 *B112b
	E1 string
}
type B112b struct {
	X  int
	E0 *B112b
	E1 *B112b
}
type B113a struct {
	X  int
	E0 *B113b
	E1 string
}
type B113b struct {
	X  int
	E0 *B113b
	E1 []B113a
}
type B114a struct {
	X  int
	E0 *B114b
	E1 string
}
type B114b struct {
	X  int
	E0 *B114b
	E1 []B114b
}
type B115a struct {
	X  int
	E0 *B115b
	E1 string
}
type B115b struct {
	X  int
	E0 []B115a
	E1 string
}
type B116a struct {
	X  int
	E0 *B116b
	E1 string
}
type B116b struct {
	X  int
	E0 []B116a
	E1 *B116a
}
type B117a struct {
	X  int
	E0 *B117b
	E1 string
}
type B117b struct {
	X  int
	E0 []B117a
	E1 *B117b
}
type B118a struct {
	X  int
	E0 *B118b
	E1 string
}
type B118b struct {
	X  int
	E0 []B118a
	E1 []B118a
}
type B119a struct {
	X  int
	E0 *B119b
	E1 string
}
type B119b struct {
	X  int
	E0 []B119a
	E1 []B119b
}
type B120a struct {
	X  int
	E0 *B120b
	E1 string
}
type B120b struct {
	X  int
	E0 []B120b
	E1 string
}
type B121a struct {
	X  int
	E0 *B121b
	E1 string
}
type B121b struct {
	X  int
	E0 []B121b
	E1 *B121a
}
type B122a struct {
	X  int
	E0 *B122b
	E1 string
}
type B122b struct {
	X  int
	E0 []B122b
	E1 *B122b
}
type B123a struct {
	X  int
	E0 *B123b
	E1 string
}
type B123b struct {
	X  int
	E0 []B123b
	E1 []B123a
}
type B124a struct {
	X  int
	E0 *B124b
	E1 string
}
type B124b struct {
	X  int
	E0 []B124b
	E1 []B124b
}
type B125a struct {
	X  int
	E0 *B125b
	E1 *B125a
}
type B125b struct {
	X  int
	E0 string
	E1 string
}
type B126a struct {
	X  int
	E0 *B126b
	E1 *B126a
}
type B126b struct {
	X  int
	E0 string
	E1 *B126a
}
type B127a struct {
	X  int
	E0 *B127b
	E1 *B127a
}
type B127b struct {
	X  int
	E0 string
	E1 *B127b
}
type B128a struct {
	X  int
	E0 *B128b
	E1 *B128a
}
type B128b struct {
	X  int
	E0 string
	E1 []B128a
}
type B129a struct {
	X  int
	E0 *B129b
	E1 *B129a
}
type B129b struct {
	X  int
	E0 string
	E1 []B129b
}
type B130a struct {
	X  int
	E0 *B130b
	E1 *B130a
}
type B130b struct {
	X  int
	E0 *B130a
	E1 string
}
type B131a struct {
	X  int
	E0 *B131b
	E1 *B131a
}
type B131b struct {
	X  int
	E0 *B131a
	E1 *B131a
}
type B132a struct {
	X  int
	E0 *B132b
	E1 *B132a
}
type B132b struct {
	X  int
	E0 *B132a
	E1 *B132b
}
type B133a struct {
	X  int
	E0 *B133b
	E1 *B133a
}
type B133b struct {
	X  int
	E0 *B133a
	E1 []B133a
}
type B134a struct {
	X  int
	E0 *B134b
	E1 *B134a
}
type B134b struct {
	X  int
	E0 *B134a
	E1 []B134b
}
type B135a struct {
	X  int
	E0 *B135b
	E1 *B135a
}
type B135b struct {
	X  int
	E0 *B135b
	E1 string
}
type B136a struct {
	X  int
	E0 *B136b
	E1 *B136a
}
type B136b struct {
	X  int
	E0 *B136b
	E1 *B136a
}
type B137a struct {
	X  int
	E0 *B137b
	E1 *B137a
}
type B137b struct {
	X  int
	E0 *B137b
	E1 *B137b
}
type B138a struct {
	X  int
	E0 *B138b
	E1 *B138a
}
type B138b struct {
	X  int
	E0 *B138b
	E1 []B138a
}
type B139a struct {
	X  int
	E0 *B139b
	E1 *B139a
}
type B139b struct {
	X  int
	E0 *B139b
	E1 []B139b
}
type B140a struct {
	X  int
	E0 *B140b
	E1 *B140a
}
type B140b struct {
	X  int
	E0 []B140a
	E1 string
}
type B141a struct {
	X  int
	E0 *B141b
	E1 *B141a
}
type B141b struct {
	X  int
	E0 []B141a
	E1 *B141a
}
type B142a struct {
	X  int
	E0 *B142b
	E1 *B142a
}
type B142b struct {
	X  int
	E0 []B142a
	E1 *B142b
}
type B143a struct {
	X  int
	E0 *B143b
	E1 *B143a
}
type B143b struct {
	X  int
	E0 []B143a
	E1 []B143a
}
type B144a struct {
	X  int
	E0 *B144b
	E1 *B144a
}
type B144b struct {
	X  int
	E0 []B144a
	E1 []B144b
}
type B145a struct {
	X  int
	E0 *B145b
	E1 *B145a
}
type B145b struct {
	X  int
	E0 []B145b
	E1 string
}
type B146a struct {
	X  int
	E0 *B146b
	E1 *B146a
}
type B146b struct {
	X  int
	E0 []B146b
	E1 *B146a
}
type B147a struct {
	X  int
	E0 *B147b
	E1 *B147a
}
type B147b struct {
	X  int
	E0 []B147b
	E1 *B147b
}
type B148a struct {
	X  int
	E0 *B148b
	E1 *B148a
}
type B148b struct {
	X  int
	E0 []B148b
	E1 []B148a
}
type B149a struct {
	X  int
	E0 *B149b
	E1 *B149a
}
type B149b struct {
	X  int
	E0 []B149b
	E1 []B149b
}
type B150a struct {
	X  int
	E0 *B150b
	E1 *B150b
}
type B150b struct {
	X  int
	E0 string
	E1 string
}
type B151a struct {
	X  int
	E0 *B151b
	E1 *B151b
}
type B151b struct {
	X  int
	E0 string
	E1 *B151a
}
type B152a struct {
	X  int
	E0 *B152b
	E1 *B152b
}
type B152b struct {
	X  int
	E0 string
	E1 *B152b
}
type B153a struct {
	X  int
	E0 *B153b
	E1 *B153b
}
type B153b struct {
	X  int
	E0 string
	E1 []B153a
}
type B154a struct {
	X  int
	E0 *B154b
	E1 *B154b
}
type B154b struct {
	X  int
	E0 string
	E1 []B154b
}
type B155a struct {
	X  int
	E0 *B155b
	E1 *B155b
}
type B155b struct {
	X  int
	E0 *B155a
	E1 string
}
type B156a struct {
	X  int
	E0 *B156b
	E1 *B156b
}
type B156b struct {
	X  int
	E0 *B156a
	E1 *B156a
}
type B157a struct {
	X  int
	E0 *B157b
	E1 *B157b
}
type B157b struct {
	X  int
	E0 *B157a
	E1 *B157b
}
type B158a struct {
	X  int
	E0 *B158b
	E1 *B158b
}
type B158b struct {
	X  int
	E0 *B158a
	E1 []B158a
}
type B159a struct {
	X  int
	E0 *B159b
	E1 *B159b
}
type B159b struct {
	X  int
	E0 *B159a
	E1 []B159b
}
type B160a struct {
	X  int
	E0 *B160b
	E1 *B160b
}
type B160b struct {
	X  int
	E0 *B160b
	E1 string
}
type B161a struct {
	X  int
	E0 *B161b
	E1 *B161b
}
type B161b struct {
	X  int
	E0 *B161b
	E1 *B161a
}
type B162a struct {
	X  int
	E0 *B162b
	E1 *B162b
}
type B162b struct {
	X  int
	E0 *B162b
	E1 *B162b
}
type B163a struct {
	X  int
	E0 *B163b
	E1 *B163b
}
type B163b struct {
	X  int
	E0 *B163b
	E1 []B163a
}
type B164a struct {
	X  int
	E0 *B164b
	E1 *B164b
}
type B164b struct {
	X  int
	E0 *B164b
	E1 []B164b
}
type B165a struct {
	X  int
	E0 *B165b
	E1 *B165b
}
type B165b struct {
	X  int
	E0 []B165a
	E1 string
}
type B166a struct {
	X  int
	E0 *B166b
	E1 *B166b
}
type B166b struct {
	X  int
	E0 []B166a
	E1 *B166a
}
type B167a struct {
	X  int
	E0 *B167b
	E1 *B167b
}
type B167b struct {
	X  int
	E0 []B167a
	E1 *B167b
}
type B168a struct {
	X  int
	E0 *B168b
	E1 *B168b
}
type B168b struct {
	X  int
	E0 []B168a
	E1 []B168a
}
type B169a struct {
	X  int
	E0 *B169b
	E1 *B169b
}
type B169b struct {
	X  int
	E0 []B169a
	E1 []B169b
}
type B170a struct {
	X  int
	E0 *B170b
	E1 *B170b
}
type B170b struct {
	X  int
	E0 []B170b
	E1 string
}
type B171a struct {
	X  int
	E0 *B171b
	E1 *B171b
}
type B171b struct {
	X  int
	E0 []B171b
	E1 *B171a
}
type B172a struct {
	X  int
	E0 *B172b
	E1 *B172b
}
type B172b struct {
	X  int
	E0 []B172b
	E1 *B172b
}
type B173a struct {
	X  int
	E0 *B173b
	E1 *B173b
}
type B173b struct {
	X  int
	E0 []B173b
	E1 []B173a
}
type B174a struct {
	X  int
	E0 *B174b
	E1 *B174b
}
type B174b struct {
	X  int
	E0 []B174b
	E1 []B174b
}
type B175a struct {
	X  int
	E0 *B175b
	E1 []B175a
}
type B175b struct {
	X  int
	E0 string
	E1 string
}
type B176a struct {
	X  int
	E0 *B176b
	E1 []B176a
}
type B176b struct {
	X  int
	E0 string
	E1 *B176a
}
type B177a struct {
	X  int
	E0 *B177b
	E1 []B177a
}
type B177b struct {
	X  int
	E0 string
	E1 *B177b
}
type B178a struct {
	X  int
	E0 *B178b
	E1 []B178a
}
type B178b struct {
	X  int
	E0 string
	E1 []B178a
}
type B179a struct {
	X  int
	E0 *B179b
	E1 []B179a
}
type B179b struct {
	X  int
	E0 string
	E1 []B179b
}
type B180a struct {
	X  int
	E0 *B180b
	E1 []B180a
}
type B180b struct {
	X  int
	E0 *B180a
	E1 string
}
type B181a struct {
	X  int
	E0 *B181b
	E1 []B181a
}
type B181b struct {
	X  int
	E0 *B181a
	E1 *B181a
}
type B182a struct {
	X  int
	E0 *B182b
	E1 []B182a
}
type B182b struct {
	X  int
	E0 *B182a
	E1 *B182b
}
type B183a struct {
	X  int
	E0 *B183b
	E1 []B183a
}
type B183b struct {
	X  int
	E0 *B183a
	E1 []B183a
}
type B184a struct {
	X  int
	E0 *B184b
	E1 []B184a
}
type B184b struct {
	X  int
	E0 *B184a
	E1 []B184b
}
type B185a struct {
	X  int
	E0 *B185b
	E1 []B185a
}
type B185b struct {
	X  int
	E0 *B185b
	E1 string
}
type B186a struct {
	X  int
	E0 *B186b
	E1 []B186a
}
type B186b struct {
	X  int
	E0 *B186b
	E1 *B186a
}
type B187a struct {
	X  int
	E0 *B187b
	E1 []B187a
}
type B187b struct {
	X  int
	E0 *B187b
	E1 *B187b
}
type B188a struct {
	X  int
	E0 *B188b
	E1 []B188a
}
type B188b struct {
	X  int
	E0 *B188b
	E1 []B188a
}
type B189a struct {
	X  int
	E0 *B189b
	E1 []B189a
}
type B189b struct {
	X  int
	E0 *B189b
	E1 []B189b
}
type B190a struct {
	X  int
	E0 *B190b
	E1 []B190a
}
type B190b struct {
	X  int
	E0 []B190a
	E1 string
}
type B191a struct {
	X  int
	E0 *B191b
	E1 []B191a
}
type B191b struct {
	X  int
	E0 []B191a
	E1 *B191a
}
type B192a struct {
	X  int
	E0 *B192b
	E1 []B192a
}
type B192b struct {
	X  int
	E0 []B192a
	E1 *B192b
}
type B193a struct {
	X  int
	E0 *B193b
	E1 []B193a
}
type B193b struct {
	X  int
	E0 []B193a
	E1 []B193a
}
type B194a struct {
	X  int
	E0 *B194b
	E1 []B194a
}
type B194b struct {
	X  int
	E0 []B194a
	E1 []B194b
}
type B195a struct {
	X  int
	E0 *B195b
	E1 []B195a
}
type B195b struct {
	X  int
	E0 []B195b
	E1 string
}
type B196a struct {
	X  int
	E0 *B196b
	E1 []B196a
}
type B196b struct {
	X  int
	E0 []B196b
	E1 *B196a
}
type B197a struct {
	X  int
	E0 *B197b
	E1 []B197a
}
type B197b struct {
	X  int
	E0 []B197b
	E1 *B197b
}
type B198a struct {
	X  int
	E0 *B198b
	E1 []B198a
}
type B198b struct {
	X  int
	E0 []B198b
	E1 []B198a
}
type B199a struct {
	X  int
	E0 *B199b
	E1 []B199a
}
type B199b struct {
	X  int
	E0 []B199b
	E1 []B199b
}
type B200a struct {
	X  int
	E0 *B200b
	E1 []B200b
}
type B200b struct {
	X  int
	E0 string
	E1 string
}
type B201a struct {
	X  int
	E0 *B201b
	E1 []B201b
}
type B201b struct {
	X  int
	E0 string
	E1 *B201a
}
type B202a struct {
	X  int
	E0 *B202b
	E1 []B202b
}
type B202b struct {
	X  int
	E0 string
	E1 *B202b
}
type B203a struct {
	X  int
	E0 *B203b
	E1 []B203b
}
type B203b struct {
	X  int
	E0 string
	E1 []B203a
}
type B204a struct {
	X  int
	E0 *B204b
	E1 []B204b
}
type B204b struct {
	X  int
	E0 string
	E1 []B204b
}
type B205a struct {
	X  int
	E0 *B205b
	E1 []B205b
}
type B205b struct {
	X  int
	E0 *B205a
	E1 string
}
type B206a struct {
	X  int
	E0 *B206b
	E1 []B206b
}
type B206b struct {
	X  int
	E0 *B206a
	E1 *B206a
}
type B207a struct {
	X  int
	E0 *B207b
	E1 []B207b
}
type B207b struct {
	X  int
	E0 *B207a
	E1 *B207b
}
type B208a struct {
	X  int
	E0 *B208b
	E1 []B208b
}
type B208b struct {
	X  int
	E0 *B208a
	E1 []B208a
}
type B209a struct {
	X  int
	E0 *B209b
	E1 []B209b
}
type B209b struct {
	X  int
	E0 *B209a
	E1 []B209b
}
type B210a struct {
	X  int
	E0 *B210b
	E1 []B210b
}
type B210b struct {
	X  int
	E0 *B210b
	E1 string
}
type B211a struct {
	X  int
	E0 *B211b
	E1 []B211b
}
type B211b struct {
	X  int
	E0 *B211b
	E1 *B211a
}
type B212a struct {
	X  int
	E0 *B212b
	E1 []B212b
}
type B212b struct {
	X  int
	E0 *B212b
	E1 *B212b
}
type B213a struct {
	X  int
	E0 *B213b
	E1 []B213b
}
type B213b struct {
	X  int
	E0 *B213b
	E1 []B213a
}
type B214a struct {
	X  int
	E0 *B214b
	E1 []B214b
}
type B214b struct {
	X  int
	E0 *B214b
	E1 []B214b
}
type B215a struct {
	X  int
	E0 *B215b
	E1 []B215b
}
type B215b struct {
	X  int
	E0 []B215a
	E1 string
}
type B216a struct {
	X  int
	E0 *B216b
	E1 []B216b
}
type B216b struct {
	X  int
	E0 []B216a
	E1 *B216a
}
type B217a struct {
	X  int
	E0 *B217b
	E1 []B217b
}
type B217b struct {
	X  int
	E0 []B217a
	E1 *B217b
}
type B218a struct {
	X  int
	E0 *B218b
	E1 []B218b
}
type B218b struct {
	X  int
	E0 []B218a
	E1 []B218a
}
type B219a struct {
	X  int
	E0 *B219b
	E1 []B219b
}
type B219b struct {
	X  int
	E0 []B219a
	E1 []B219b
}
type B220a struct {
	X  int
	E0 *B220b
	E1 []B220b
}
type B220b struct {
	X  int
	E0 []B220b
	E1 string
}
type B221a struct {
	X  int
	E0 *B221b
	E1 []B221b
}
type B221b struct {
	X  int
	E0 []B221b
	E1 *B221a
}
type B222a struct {
	X  int
	E0 *B222b
	E1 []B222b
}
type B222b struct {
	X  int
	E0 []B222b
	E1 *B222b
}
type B223a struct {
	X  int
	E0 *B223b
	E1 []B223b
}
type B223b struct {
	X  int
	E0 []B223b
	E1 []B223a
}
type B224a struct {
	X  int
	E0 *B224b
	E1 []B224b
}
type B224b struct {
	X  int
	E0 []B224b
	E1 []B224b
}
type B225a struct {
	X  int
	E0 []B225a
	E1 *B225b
}
type B225b struct {
	X  int
	E0 string
	E1 string
}
type B226a struct {
	X  int
	E0 []B226a
	E1 *B226b
}
type B226b struct {
	X  int
	E0 string
	E1 *B226a
}
type B227a struct {
	X  int
	E0 []B227a
	E1 *B227b
}
type B227b struct {
	X  int
	E0 string
	E1 *B227b
}
type B228a struct {
	X  int
	E0 []B228a
	E1 *B228b
}
type B228b struct {
	X  int
	E0 string
	E1 []B228a
}
type B229a struct {
	X  int
	E0 []B229a
	E1 *B229b
}
type B229b struct {
	X  int
	E0 string
	E1 []B229b
}
type B230a struct {
	X  int
	E0 []B230a
	E1 *B230b
}
type B230b struct {
	X  int
	E0 *B230a
	E1 string
}
type B231a struct {
	X  int
	E0 []B231a
	E1 *B231b
}
type B231b struct {
	X  int
	E0 *B231a
	E1 *B231a
}
type B232a struct {
	X  int
	E0 []B232a
	E1 *B232b
}
type B232b struct {
	X  int
	E0 *B232a
	E1 *B232b
}
type B233a struct {
	X  int
	E0 []B233a
	E1 *B233b
}
type B233b struct {
	X  int
	E0 *B233a
	E1 []B233a
}
type B234a struct {
	X  int
	E0 []B234a
	E1 *B234b
}
type B234b struct {
	X  int
	E0 *B234a
	E1 []B234b
}
type B235a struct {
	X  int
	E0 []B235a
	E1 *B235b
}
type B235b struct {
	X  int
	E0 *B235b
	E1 string
}
type B236a struct {
	X  int
	E0 []B236a
	E1 *B236b
}
type B236b struct {
	X  int
	E0 *B236b
	E1 *B236a
}
type B237a struct {
	X  int
	E0 []B237a
	E1 *B237b
}
type B237b struct {
	X  int
	E0 *B237b
	E1 *B237b
}
type B238a struct {
	X  int
	E0 []B238a
	E1 *B238b
}
type B238b struct {
	X  int
	E0 *B238b
	E1 []B238a
}
type B239a struct {
	X  int
	E0 []B239a
	E1 *B239b
}
type B239b struct {
	X  int
	E0 *B239b
	E1 []B239b
}
type B240a struct {
	X  int
	E0 []B240a
	E1 *B240b
}
type B240b struct {
	X  int
	E0 []B240a
	E1 string
}
type B241a struct {
	X  int
	E0 []B241a
	E1 *B241b
}
type B241b struct {
	X  int
	E0 []B241a
	E1 *B241a
}
type B242a struct {
	X  int
	E0 []B242a
	E1 *B242b
}
type B242b struct {
	X  int
	E0 []B242a
	E1 *B242b
}
type B243a struct {
	X  int
	E0 []B243a
	E1 *B243b
}
type B243b struct {
	X  int
	E0 []B243a
	E1 []B243a
}
type B244a struct {
	X  int
	E0 []B244a
	E1 *B244b
}
type B244b struct {
	X  int
	E0 []B244a
	E1 []B244b
}
type B245a struct {
	X  int
	E0 []B245a
	E1 *B245b
}
type B245b struct {
	X  int
	E0 []B245b
	E1 string
}
type B246a struct {
	X  int
	E0 []B246a
	E1 *B246b
}
type B246b struct {
	X  int
	E0 []B246b
	E1 *B246a
}
type B247a struct {
	X  int
	E0 []B247a
	E1 *B247b
}
type B247b struct {
	X  int
	E0 []B247b
	E1 *B247b
}
type B248a struct {
	X  int
	E0 []B248a
	E1 *B248b
}
type B248b struct {
	X  int
	E0 []B248b
	E1 []B248a
}
type B249a struct {
	X  int
	E0 []B249a
	E1 *B249b
}
type B249b struct {
	X  int
	E0 []B249b
	E1 []B249b
}
type B250a struct {
	X  int
	E0 []B250a
	E1 []B250b
}
type B250b struct {
	X  int
	E0 string
	E1 string
}
type B251a struct {
	X  int
	E0 []B251a
	E1 []B251b
}
type B251b struct {
	X  int
	E0 string
	E1 *B251a
}
type B252a struct {
	X  int
	E0 []B252a
	E1 []B252b
}
type B252b struct {
	X  int
	E0 string
	E1 *B252b
}
type B253a struct {
	X  int
	E0 []B253a
	E1 []B253b
}
type B253b struct {
	X  int
	E0 string
	E1 []B253a
}
type B254a struct {
	X  int
	E0 []B254a
	E1 []B254b
}
type B254b struct {
	X  int
	E0 string
	E1 []B254b
}
type B255a struct {
	X  int
	E0 []B255a
	E1 []B255b
}
type B255b struct {
	X  int
	E0 *B255a
	E1 string
}
type B256a struct {
	X  int
	E0 []B256a
	E1 []B256b
}
type B256b struct {
	X  int
	E0 *B256a
	E1 *B256a
}
type B257a struct {
	X  int
	E0 []B257a
	E1 []B257b
}
type B257b struct {
	X  int
	E0 *B257a
	E1 *B257b
}
type B258a struct {
	X  int
	E0 []B258a
	E1 []B258b
}
type B258b struct {
	X  int
	E0 *B258a
	E1 []B258a
}
type B259a struct {
	X  int
	E0 []B259a
	E1 []B259b
}
type B259b struct {
	X  int
	E0 *B259a
	E1 []B259b
}
type B260a struct {
	X  int
	E0 []B260a
	E1 []B260b
}
type B260b struct {
	X  int
	E0 *B260b
	E1 string
}
type B261a struct {
	X  int
	E0 []B261a
	E1 []B261b
}
type B261b struct {
	X  int
	E0 *B261b
	E1 *B261a
}
type B262a struct {
	X  int
	E0 []B262a
	E1 []B262b
}
type B262b struct {
	X  int
	E0 *B262b
	E1 *B262b
}
type B263a struct {
	X  int
	E0 []B263a
	E1 []B263b
}
type B263b struct {
	X  int
	E0 *B263b
	E1 []B263a
}
type B264a struct {
	X  int
	E0 []B264a
	E1 []B264b
}
type B264b struct {
	X  int
	E0 *B264b
	E1 []B264b
}
type B265a struct {
	X  int
	E0 []B265a
	E1 []B265b
}
type B265b struct {
	X  int
	E0 []B265a
	E1 string
}
type B266a struct {
	X  int
	E0 []B266a
	E1 []B266b
}
type B266b struct {
	X  int
	E0 []B266a
	E1 *B266a
}
type B267a struct {
	X  int
	E0 []B267a
	E1 []B267b
}
type B267b struct {
	X  int
	E0 []B267a
	E1 *B267b
}
type B268a struct {
	X  int
	E0 []B268a
	E1 []B268b
}
type B268b struct {
	X  int
	E0 []B268a
	E1 []B268a
}
type B269a struct {
	X  int
	E0 []B269a
	E1 []B269b
}
type B269b struct {
	X  int
	E0 []B269a
	E1 []B269b
}
type B270a struct {
	X  int
	E0 []B270a
	E1 []B270b
}
type B270b struct {
	X  int
	E0 []B270b
	E1 string
}
type B271a struct {
	X  int
	E0 []B271a
	E1 []B271b
}
type B271b struct {
	X  int
	E0 []B271b
	E1 *B271a
}
type B272a struct {
	X  int
	E0 []B272a
	E1 []B272b
}
type B272b struct {
	X  int
	E0 []B272b
	E1 *B272b
}
type B273a struct {
	X  int
	E0 []B273a
	E1 []B273b
}
type B273b struct {
	X  int
	E0 []B273b
	E1 []B273a
}
type B274a struct {
	X  int
	E0 []B274a
	E1 []B274b
}
type B274b struct {
	X  int
	E0 []B274b
	E1 []B274b
}
type B275a struct {
	X  int
	E0 []B275b
	E1 string
}
type B275b struct {
	X  int
	E0 string
	E1 string
}
type B276a struct {
	X  int
	E0 []B276b
	E1 string
}
type B276b struct {
	X  int
	E0 string
	E1 *B276a
}
type B277a struct {
	X  int
	E0 []B277b
	E1 string
}
type B277b struct {
	X  int
	E0 string
	E1 *B277b
}
type B278a struct {
	X  int
	E0 []B278b
	E1 string
}
type B278b struct {
	X  int
	E0 string
	E1 []B278a
}
type B279a struct {
	X  int
	E0 []B279b
	E1 string
}
type B279b struct {
	X  int
	E0 string
	E1 []B279b
}
type B280a struct {
	X  int
	E0 []B280b
	E1 string
}
type B280b struct {
	X  int
	E0 *B280a
	E1 string
}
type B281a struct {
	X  int
	E0 []B281b
	E1 string
}
type B281b struct {
	X  int
	E0 *B281a
	E1 *B281a
}
type B282a struct {
	X  int
	E0 []B282b
	E1 string
}
type B282b struct {
	X  int
	E0 *B282a
	E1 *B282b
}
type B283a struct {
	X  int
	E0 []B283b
	E1 string
}
type B283b struct {
	X  int
	E0 *B283a
	E1 []B283a
}
type B284a struct {
	X  int
	E0 []B284b
	E1 string
}
type B284b struct {
	X  int
	E0 *B284a
	E1 []B284b
}
type B285a struct {
	X  int
	E0 []B285b
	E1 string
}
type B285b struct {
	X  int
	E0 *B285b
	E1 string
}
type B286a struct {
	X  int
	E0 []B286b
	E1 string
}
type B286b struct {
	X  int
	E0 *B286b
	E1 *B286a
}
type B287a struct {
	X  int
	E0 []B287b
	E1 string
}
type B287b struct {
	X  int
	E0 *B287b
	E1 *B287b
}
type B288a struct {
	X  int
	E0 []B288b
	E1 string
}
type B288b struct {
	X  int
	E0 *B288b
	E1 []B288a
}
type B289a struct {
	X  int
	E0 []B289b
	E1 string
}
type B289b struct {
	X  int
	E0 *B289b
	E1 []B289b
}
type B290a struct {
	X  int
	E0 []B290b
	E1 string
}
type B290b struct {
	X  int
	E0 []B290a
	E1 string
}
type B291a struct {
	X  int
	E0 []B291b
	E1 string
}
type B291b struct {
	X  int
	E0 []B291a
	E1 *B291a
}
type B292a struct {
	X  int
	E0 []B292b
	E1 string
}
type B292b struct {
	X  int
	E0 []B292a
	E1 *B292b
}
type B293a struct {
	X  int
	E0 []B293b
	E1 string
}
type B293b struct {
	X  int
	E0 []B293a
	E1 []B293a
}
type B294a struct {
	X  int
	E0 []B294b
	E1 string
}
type B294b struct {
	X  int
	E0 []B294a
	E1 []B294b
}
type B295a struct {
	X  int
	E0 []B295b
	E1 string
}
type B295b struct {
	X  int
	E0 []B295b
	E1 string
}
type B296a struct {
	X  int
	E0 []B296b
	E1 string
}
type B296b struct {
	X  int
	E0 []B296b
	E1 *B296a
}
type B297a struct {
	X  int
	E0 []B297b
	E1 string
}
type B297b struct {
	X  int
	E0 []B297b
	E1 *B297b
}
type B298a struct {
	X  int
	E0 []B298b
	E1 string
}
type B298b struct {
	X  int
	E0 []B298b
	E1 []B298a
}
type B299a struct {
	X  int
	E0 []B299b
	E1 string
}
type B299b struct {
	X  int
	E0 []B299b
	E1 []B299b
}
type B300a struct {
	X  int
	E0 []B300b
	E1 *B300a
}
type B300b struct {
	X  int
	E0 string
	E1 string
}
type B301a struct {
	X  int
	E0 []B301b
	E1 *B301a
}
type B301b struct {
	X  int
	E0 string
	E1 *B301a
}
type B302a struct {
	X  int
	E0 []B302b
	E1 *B302a
}
type B302b struct {
	X  int
	E0 string
	E1 *B302b
}
type B303a struct {
	X  int
	E0 []B303b
	E1 *B303a
}
type B303b struct {
	X  int
	E0 string
	E1 []B303a
}
type B304a struct {
	X  int
	E0 []B304b
	E1 *B304a
}
type B304b struct {
	X  int
	E0 string
	E1 []B304b
}
type B305a struct {
	X  int
	E0 []B305b
	E1 *B305a
}
type B305b struct {
	X  int
	E0 *B305a
	E1 string
}
type B306a struct {
	X  int
	E0 []B306b
	E1 *B306a
}
type B306b struct {
	X  int
	E0 *B306a
	E1 *B306a
}
type B307a struct {
	X  int
	E0 []B307b
	E1 *B307a
}
type B307b struct {
	X  int
	E0 *B307a
	E1 *B307b
}
type B308a struct {
	X  int
	E0 []B308b
	E1 *B308a
}
type B308b struct {
	X  int
	E0 *B308a
	E1 []B308a
}
type B309a struct {
	X  int
	E0 []B309b
	E1 *B309a
}
type B309b struct {
	X  int
	E0 *B309a
	E1 []B309b
}
type B310a struct {
	X  int
	E0 []B310b
	E1 *B310a
}
type B310b struct {
	X  int
	E0 *B310b
	E1 string
}
type B311a struct {
	X  int
	E0 []B311b
	E1 *B311a
}
type B311b struct {
	X  int
	E0 *B311b
	E1 *B311a
}
type B312a struct {
	X  int
	E0 []B312b
	E1 *B312a
}
type B312b struct {
	X  int
	E0 *B312b
	E1 *B312b
}
type B313a struct {
	X  int
	E0 []B313b
	E1 *B313a
}
type B313b struct {
	X  int
	E0 *B313b
	E1 []B313a
}
type B314a struct {
	X  int
	E0 []B314b
	E1 *B314a
}
type B314b struct {
	X  int
	E0 *B314b
	E1 []B314b
}
type B315a struct {
	X  int
	E0 []B315b
	E1 *B315a
}
type B315b struct {
	X  int
	E0 []B315a
	E1 string
}
type B316a struct {
	X  int
	E0 []B316b
	E1 *B316a
}
type B316b struct {
	X  int
	E0 []B316a
	E1 *B316a
}
type B317a struct {
	X  int
	E0 []B317b
	E1 *B317a
}
type B317b struct {
	X  int
	E0 []B317a
	E1 *B317b
}
type B318a struct {
	X  int
	E0 []B318b
	E1 *B318a
}
type B318b struct {
	X  int
	E0 []B318a
	E1 []B318a
}
type B319a struct {
	X  int
	E0 []B319b
	E1 *B319a
}
type B319b struct {
	X  int
	E0 []B319a
	E1 []B319b
}
type B320a struct {
	X  int
	E0 []B320b
	E1 *B320a
}
type B320b struct {
	X  int
	E0 []B320b
	E1 string
}
type B321a struct {
	X  int
	E0 []B321b
	E1 *B321a
}
type B321b struct {
	X  int
	E0 []B321b
	E1 *B321a
}
type B322a struct {
	X  int
	E0 []B322b
	E1 *B322a
}
type B322b struct {
	X  int
	E0 []B322b
	E1 *B322b
}
type B323a struct {
	X  int
	E0 []B323b
	E1 *B323a
}
type B323b struct {
	X  int
	E0 []B323b
	E1 []B323a
}
type B324a struct {
	X  int
	E0 []B324b
	E1 *B324a
}
type B324b struct {
	X  int
	E0 []B324b
	E1 []B324b
}
type B325a struct {
	X  int
	E0 []B325b
	E1 *B325b
}
type B325b struct {
	X  int
	E0 string
	E1 string
}
type B326a struct {
	X  int
	E0 []B326b
	E1 *B326b
}
type B326b struct {
	X  int
	E0 string
	E1 *B326a
}
type B327a struct {
	X  int
	E0 []B327b
	E1 *B327b
}
type B327b struct {
	X  int
	E0 string
	E1 *B327b
}
type B328a struct {
	X  int
	E0 []B328b
	E1 *B328b
}
type B328b struct {
	X  int
	E0 string
	E1 []B328a
}
type B329a struct {
	X  int
	E0 []B329b
	E1 *B329b
}
type B329b struct {
	X  int
	E0 string
	E1 []B329b
}
type B330a struct {
	X  int
	E0 []B330b
	E1 *B330b
}
type B330b struct {
	X  int
	E0 *B330a
	E1 string
}
type B331a struct {
	X  int
	E0 []B331b
	E1 *B331b
}
type B331b struct {
	X  int
	E0 *B331a
	E1 *B331a
}
type B332a struct {
	X  int
	E0 []B332b
	E1 *B332b
}
type B332b struct {
	X  int
	E0 *B332a
	E1 *B332b
}
type B333a struct {
	X  int
	E0 []B333b
	E1 *B333b
}
type B333b struct {
	X  int
	E0 *B333a
	E1 []B333a
}
type B334a struct {
	X  int
	E0 []B334b
	E1 *B334b
}
type B334b struct {
	X  int
	E0 *B334a
	E1 []B334b
}
type B335a struct {
	X  int
	E0 []B335b
	E1 *B335b
}
type B335b struct {
	X  int
	E0 *B335b
	E1 string
}
type B336a struct {
	X  int
	E0 []B336b
	E1 *B336b
}
type B336b struct {
	X  int
	E0 *B336b
	E1 *B336a
}
type B337a struct {
	X  int
	E0 []B337b
	E1 *B337b
}
type B337b struct {
	X  int
	E0 *B337b
	E1 *B337b
}
type B338a struct {
	X  int
	E0 []B338b
	E1 *B338b
}
type B338b struct {
	X  int
	E0 *B338b
	E1 []B338a
}
type B339a struct {
	X  int
	E0 []B339b
	E1 *B339b
}
type B339b struct {
	X  int
	E0 *B339b
	E1 []B339b
}
type B340a struct {
	X  int
	E0 []B340b
	E1 *B340b
}
type B340b struct {
	X  int
	E0 []B340a
	E1 string
}
type B341a struct {
	X  int
	E0 []B341b
	E1 *B341b
}
type B341b struct {
	X  int
	E0 []B341a
	E1 *B341a
}
type B342a struct {
	X  int
	E0 []B342b
	E1 *B342b
}
type B342b struct {
	X  int
	E0 []B342a
	E1 *B342b
}
type B343a struct {
	X  int
	E0 []B343b
	E1 *B343b
}
type B343b struct {
	X  int
	E0 []B343a
	E1 []B343a
}
type B344a struct {
	X  int
	E0 []B344b
	E1 *B344b
}
type B344b struct {
	X  int
	E0 []B344a
	E1 []B344b
}
type B345a struct {
	X  int
	E0 []B345b
	E1 *B345b
}
type B345b struct {
	X  int
	E0 []B345b
	E1 string
}
type B346a struct {
	X  int
	E0 []B346b
	E1 *B346b
}
type B346b struct {
	X  int
	E0 []B346b
	E1 *B346a
}
type B347a struct {
	X  int
	E0 []B347b
	E1 *B347b
}
type B347b struct {
	X  int
	E0 []B347b
	E1 *B347b
}
type B348a struct {
	X  int
	E0 []B348b
	E1 *B348b
}
type B348b struct {
	X  int
	E0 []B348b
	E1 []B348a
}
type B349a struct {
	X  int
	E0 []B349b
	E1 *B349b
}
type B349b struct {
	X  int
	E0 []B349b
	E1 []B349b
}
type B350a struct {
	X  int
	E0 []B350b
	E1 []B350a
}
type B350b struct {
	X  int
	E0 string
	E1 string
}
type B351a struct {
	X  int
	E0 []B351b
	E1 []B351a
}
type B351b struct {
	X  int
	E0 string
	E1 *B351a
}
type B352a struct {
	X  int
	E0 []B352b
	E1 []B352a
}
type B352b struct {
	X  int
	E0 string
	E1 *B352b
}
type B353a struct {
	X  int
	E0 []B353b
	E1 []B353a
}
type B353b struct {
	X  int
	E0 string
	E1 []B353a
}
type B354a struct {
	X  int
	E0 []B354b
	E1 []B354a
}
type B354b struct {
	X  int
	E0 string
	E1 []B354b
}
type B355a struct {
	X  int
	E0 []B355b
	E1 []B355a
}
type B355b struct {
	X  int
	E0 *B355a
	E1 string
}
type B356a struct {
	X  int
	E0 []B356b
	E1 []B356a
}
type B356b struct {
	X  int
	E0 *B356a
	E1 *B356a
}
type B357a struct {
	X  int
	E0 []B357b
	E1 []B357a
}
type B357b struct {
	X  int
	E0 *B357a
	E1 *B357b
}
type B358a struct {
	X  int
	E0 []B358b
	E1 []B358a
}
type B358b struct {
	X  int
	E0 *B358a
	E1 []B358a
}
type B359a struct {
	X  int
	E0 []B359b
	E1 []B359a
}
type B359b struct {
	X  int
	E0 *B359a
	E1 []B359b
}
type B360a struct {
	X  int
	E0 []B360b
	E1 []B360a
}
type B360b struct {
	X  int
	E0 *B360b
	E1 string
}
type B361a struct {
	X  int
	E0 []B361b
	E1 []B361a
}
type B361b struct {
	X  int
	E0 *B361b
	E1 *B361a
}
type B362a struct {
	X  int
	E0 []B362b
	E1 []B362a
}
type B362b struct {
	X  int
	E0 *B362b
	E1 *B362b
}
type B363a struct {
	X  int
	E0 []B363b
	E1 []B363a
}
type B363b struct {
	X  int
	E0 *B363b
	E1 []B363a
}
type B364a struct {
	X  int
	E0 []B364b
	E1 []B364a
}
type B364b struct {
	X  int
	E0 *B364b
	E1 []B364b
}
type B365a struct {
	X  int
	E0 []B365b
	E1 []B365a
}
type B365b struct {
	X  int
	E0 []B365a
	E1 string
}
type B366a struct {
	X  int
	E0 []B366b
	E1 []B366a
}
type B366b struct {
	X  int
	E0 []B366a
	E1 *B366a
}
type B367a struct {
	X  int
	E0 []B367b
	E1 []B367a
}
type B367b struct {
	X  int
	E0 []B367a
	E1 *B367b
}
type B368a struct {
	X  int
	E0 []B368b
	E1 []B368a
}
type B368b struct {
	X  int
	E0 []B368a
	E1 []B368a
}
type B369a struct {
	X  int
	E0 []B369b
	E1 []B369a
}
type B369b struct {
	X  int
	E0 []B369a
	E1 []B369b
}
type B370a struct {
	X  int
	E0 []B370b
	E1 []B370a
}
type B370b struct {
	X  int
	E0 []B370b
	E1 string
}
type B371a struct {
	X  int
	E0 []B371b
	E1 []B371a
}
type B371b struct {
	X  int
	E0 []B371b
	E1 *B371a
}
type B372a struct {
	X  int
	E0 []B372b
	E1 []B372a
}
type B372b struct {
	X  int
	E0 []B372b
	E1 *B372b
}
type B373a struct {
	X  int
	E0 []B373b
	E1 []B373a
}
type B373b struct {
	X  int
	E0 []B373b
	E1 []B373a
}
type B374a struct {
	X  int
	E0 []B374b
	E1 []B374a
}
type B374b struct {
	X  int
	E0 []B374b
	E1 []B374b
}
type B375a struct {
	X  int
	E0 []B375b
	E1 []B375b
}
type B375b struct {
	X  int
	E0 string
	E1 string
}
type B376a struct {
	X  int
	E0 []B376b
	E1 []B376b
}
type B376b struct {
	X  int
	E0 string
	E1 *B376a
}
type B377a struct {
	X  int
	E0 []B377b
	E1 []B377b
}
type B377b struct {
	X  int
	E0 string
	E1 *B377b
}
type B378a struct {
	X  int
	E0 []B378b
	E1 []B378b
}
type B378b struct {
	X  int
	E0 string
	E1 []B378a
}
type B379a struct {
	X  int
	E0 []B379b
	E1 []B379b
}
type B379b struct {
	X  int
	E0 string
	E1 []B379b
}
type B380a struct {
	X  int
	E0 []B380b
	E1 []B380b
}
type B380b struct {
	X  int
	E0 *B380a
	E1 string
}
type B381a struct {
	X  int
	E0 []B381b
	E1 []B381b
}
type B381b struct {
	X  int
	E0 *B381a
	E1 *B381a
}
type B382a struct {
	X  int
	E0 []B382b
	E1 []B382b
}
type B382b struct {
	X  int
	E0 *B382a
	E1 *B382b
}
type B383a struct {
	X  int
	E0 []B383b
	E1 []B383b
}
type B383b struct {
	X  int
	E0 *B383a
	E1 []B383a
}
type B384a struct {
	X  int
	E0 []B384b
	E1 []B384b
}
type B384b struct {
	X  int
	E0 *B384a
	E1 []B384b
}
type B385a struct {
	X  int
	E0 []B385b
	E1 []B385b
}
type B385b struct {
	X  int
	E0 *B385b
	E1 string
}
type B386a struct {
	X  int
	E0 []B386b
	E1 []B386b
}
type B386b struct {
	X  int
	E0 *B386b
	E1 *B386a
}
type B387a struct {
	X  int
	E0 []B387b
	E1 []B387b
}
type B387b struct {
	X  int
	E0 *B387b
	E1 *B387b
}
type B388a struct {
	X  int
	E0 []B388b
	E1 []B388b
}
type B388b struct {
	X  int
	E0 *B388b
	E1 []B388a
}
type B389a struct {
	X  int
	E0 []B389b
	E1 []B389b
}
type B389b struct {
	X  int
	E0 *B389b
	E1 []B389b
}
type B390a struct {
	X  int
	E0 []B390b
	E1 []B390b
}
type B390b struct {
	X  int
	E0 []B390a
	E1 string
}
type B391a struct {
	X  int
	E0 []B391b
	E1 []B391b
}
type B391b struct {
	X  int
	E0 []B391a
	E1 *B391a
}
type B392a struct {
	X  int
	E0 []B392b
	E1 []B392b
}
type B392b struct {
	X  int
	E0 []B392a
	E1 *B392b
}
type B393a struct {
	X  int
	E0 []B393b
	E1 []B393b
}
type B393b struct {
	X  int
	E0 []B393a
	E1 []B393a
}
type B394a struct {
	X  int
	E0 []B394b
	E1 []B394b
}
type B394b struct {
	X  int
	E0 []B394a
	E1 []B394b
}
type B395a struct {
	X  int
	E0 []B395b
	E1 []B395b
}
type B395b struct {
	X  int
	E0 []B395b
	E1 string
}
type B396a struct {
	X  int
	E0 []B396b
	E1 []B396b
}
type B396b struct {
	X  int
	E0 []B396b
	E1 *B396a
}
type B397a struct {
	X  int
	E0 []B397b
	E1 []B397b
}
type B397b struct {
	X  int
	E0 []B397b
	E1 *B397b
}
type B398a struct {
	X  int
	E0 []B398b
	E1 []B398b
}
type B398b struct {
	X  int
	E0 []B398b
	E1 []B398a
}
type B399a struct {
	X  int
	E0 []B399b
	E1 []B399b
}
type B399b struct {
	X  int
	E0 []B399b
	E1 []B399b
}
type C0a struct {
	X  int
	E0 string
	E1 string
}
type C0b struct {
	X  int
	E0 *C0a
	E1 string
}
type C1a struct {
	X  int
	E0 string
	E1 string
}
type C1b struct {
	X  int
	E0 *C1a
	E1 []*C1a
}
type C2a struct {
	X  int
	E0 string
	E1 string
}
type C2b struct {
	X  int
	E0 *C2a
	E1 map[string]*C2b
}
type C3a struct {
	X  int
	E0 string
	E1 string
}
type C3b struct {
	X int
	*C3a
	E1 string
}
type C4a struct {
	X  int
	E0 string
	E1 string
}
type C4b struct {
	X int
	*C4a
	E1 []*C4a
}
type C5a struct {
	X  int
	E0 string
	E1 string
}
type C5b struct {
	X int
	*C5a
	E1 map[string]*C5b
}
type C6a struct {
	X  int
	E0 string
	E1 string
}
type C6b struct {
	X  int
	E0 map[string]C6a
	E1 string
}
type C7a struct {
	X  int
	E0 string
	E1 string
}
type C7b struct {
	X  int
	E0 map[string]C7a
	E1 []*C7a
}
type C8a struct {
	X  int
	E0 string
	E1 string
}
type C8b struct {
	X  int
	E0 map[string]C8a
	E1 map[string]*C8b
}
type C9a struct {
	X  int
	E0 string
	E1 string
}
type C9b struct {
	X  int
	E0 *C9b
	E1 string
}
type C10a struct {
	X  int
	E0 string
	E1 string
}
type C10b struct {
	X  int
	E0 *C10b
	E1 []*C10a
}
type C11a struct {
	X  int
	E0 string
	E1 string
}
type C11b struct {
	X  int
	E0 *C11b
	E1 map[string]*C11b
}
type C12a struct {
	X  int
	E0 string
	E1 string
}
type C12b struct {
	X int
	*C12b
	E1 string
}
type C13a struct {
	X  int
	E0 string
	E1 string
}
type C13b struct {
	X int
	*C13b
	E1 []*C13a
}
type C14a struct {
	X  int
	E0 string
	E1 string
}
type C14b struct {
	X int
	*C14b
	E1 map[string]*C14b
}
type C15a struct {
	X  int
	E0 string
	E1 *C15a
}
type C15b struct {
	X  int
	E0 *C15a
	E1 string
}
type C16a struct {
	X  int
	E0 string
	E1 *C16a
}
type C16b struct {
	X  int
	E0 *C16a
	E1 []*C16a
}
type C17a struct {
	X  int
	E0 string
	E1 *C17a
}
type C17b struct {
	X  int
	E0 *C17a
	E1 map[string]*C17b
}
type C18a struct {
	X  int
	E0 string
	E1 *C18a
}
type C18b struct {
	X int
	*C18a
	E1 string
}
type C19a struct {
	X  int
	E0 string
	E1 *C19a
}
type C19b struct {
	X int
	*C19a
	E1 []*C19a
}
type C20a struct {
	X  int
	E0 string
	E1 *C20a
}
type C20b struct {
	X int
	*C20a
	E1 map[string]*C20b
}
type C21a struct {
	X  int
	E0 string
	E1 *C21a
}
type C21b struct {
	X  int
	E0 map[string]C21a
	E1 string
}
type C22a struct {
	X  int
	E0 string
	E1 *C22a
}
type C22b struct {
	X  int
	E0 map[string]C22a
	E1 []*C22a
}
type C23a struct {
	X  int
	E0 string
	E1 *C23a
}
type C23b struct {
	X  int
	E0 map[string]C23a
	E1 map[string]*C23b
}
type C24a struct {
	X  int
	E0 string
	E1 *C24a
}
type C24b struct {
	X  int
	E0 *C24b
	E1 string
}
type C25a struct {
	X  int
	E0 string
	E1 *C25a
}
type C25b struct {
	X  int
	E0 *C25b
	E1 []*C25a
}
type C26a struct {
	X  int
	E0 string
	E1 *C26a
}
type C26b struct {
	X  int
	E0 *C26b
	E1 map[string]*C26b
}
type C27a struct {
	X  int
	E0 string
	E1 *C27a
}
type C27b struct {
	X int
	*C27b
	E1 string
}
type C28a struct {
	X  int
	E0 string
	E1 *C28a
}
type C28b struct {
	X int
	*C28b
	E1 []*C28a
}
type C29a struct {
	X  int
	E0 string
	E1 *C29a
}
type C29b struct {
	X int
	*C29b
	E1 map[string]*C29b
}
type C30a struct {
	X  int
	E0 *C30b
	E1 string
}
type C30b struct {
	X  int
	E0 *C30a
	E1 string
}
type C31a struct {
	X  int
	E0 *C31b
	E1 string
}
type C31b struct {
	X  int
	E0 *C31a
	E1 []*C31a
}
type C32a struct {
	X  int
	E0 *C32b
	E1 string
}
type C32b struct {
	X  int
	E0 *C32a
	E1 map[string]*C32b
}
type C33a struct {
	X  int
	E0 *C33b
	E1 string
}
type C33b struct {
	X int
	*C33a
	E1 string
}
type C34a struct {
	X  int
	E0 *C34b
	E1 string
}
type C34b struct {
	X int
	*C34a
	E1 []*C34a
}
type C35a struct {
	X  int
	E0 *C35b
	E1 string
}
type C35b struct {
	X int
	*C35a
	E1 map[string]*C35b
}
type C36a struct {
	X  int
	E0 *C36b
	E1 string
}
type C36b struct {
	X  int
	E0 map[string]C36a
	E1 string
}
type C37a struct {
	X  int
	E0 *C37b
	E1 string
}
type C37b struct {
	X  int
	E0 map[string]C37a
	E1 []*C37a
}
type C38a struct {
	X  int
	E0 *C38b
	E1 string
}
type C38b struct {
	X  int
	E0 map[string]C38a
	E1 map[string]*C38b
}
type C39a struct {
	X  int
	E0 *C39b
	E1 string
}
type C39b struct {
	X  int
	E0 *C39b
	E1 string
}
type C40a struct {
	X  int
	E0 *C40b
	E1 string
}
type C40b struct {
	X  int
	E0 *C40b
	E1 []*C40a
}
type C41a struct {
	X  int
	E0 *C41b
	E1 string
}
type C41b struct {
	X  int
	E0 *C41b
	E1 map[string]*C41b
}
type C42a struct {
	X  int
	E0 *C42b
	E1 string
}
type C42b struct {
	X int
	*C42b
	E1 string
}
type C43a struct {
	X  int
	E0 *C43b
	E1 string
}
type C43b struct {
	X int
	*C43b
	E1 []*C43a
}
type C44a struct {
	X  int
	E0 *C44b
	E1 string
}
type C44b struct {
	X int
	*C44b
	E1 map[string]*C44b
}
type C45a struct {
	X  int
	E0 *C45b
	E1 *C45a
}
type C45b struct {
	X  int
	E0 *C45a
	E1 string
}
type C46a struct {
	X  int
	E0 *C46b
	E1 *C46a
}
type C46b struct {
	X  int
	E0 *C46a
	E1 []*C46a
}
type C47a struct {
	X  int
	E0 *C47b
	E1 *C47a
}
type C47b struct {
	X  int
	E0 *C47a
	E1 map[string]*C47b
}
type C48a struct {
	X  int
	E0 *C48b
	E1 *C48a
}
type C48b struct {
	X int
	*C48a
	E1 string
}
type C49a struct {
	X  int
	E0 *C49b
	E1 *C49a
}
type C49b struct {
	X int
	*C49a
	E1 []*C49a
}
type C50a struct {
	X  int
	E0 *C50b
	E1 *C50a
}
type C50b struct {
	X int
	*C50a
	E1 map[string]*C50b
}
type C51a struct {
	X  int
	E0 *C51b
	E1 *C51a
}
type C51b struct {
	X  int
	E0 map[string]C51a
	E1 string
}
type C52a struct {
	X  int
	E0 *C52b
	E1 *C52a
}
type C52b struct {
	X  int
	E0 map[string]C52a
	E1 []*C52a
}
type C53a struct {
	X  int
	E0 *C53b
	E1 *C53a
}
type C53b struct {
	X  int
	E0 map[string]C53a
	E1 map[string]*C53b
}
type C54a struct {
	X  int
	E0 *C54b
	E1 *C54a
}
type C54b struct {
	X  int
	E0 *C54b
	E1 string
}
type C55a struct {
	X  int
	E0 *C55b
	E1 *C55a
}
type C55b struct {
	X  int
	E0 *C55b
	E1 []*C55a
}
type C56a struct {
	X  int
	E0 *C56b
	E1 *C56a
}
type C56b struct {
	X  int
	E0 *C56b
	E1 map[string]*C56b
}
type C57a struct {
	X  int
	E0 *C57b
	E1 *C57a
}
type C57b struct {
	X int
	*C57b
	E1 string
}
type C58a struct {
	X  int
	E0 *C58b
	E1 *C58a
}
type C58b struct {
	X int
	*C58b
	E1 []*C58a
}
type C59a struct {
	X  int
	E0 *C59b
	E1 *C59a
}
type C59b struct {
	X int
	*C59b
	E1 map[string]*C59b
}
type C60a struct {
	X int
	*C60b
	E1 string
}
type C60b struct {
	X  int
	E0 *C60a
	E1 string
}
type C61a struct {
	X int
	*C61b
	E1 string
}
type C61b struct {
	X  int
	E0 *C61a
	E1 []*C61a
}
type C62a struct {
	X int
	*C62b
	E1 string
}
type C62b struct {
	X  int
	E0 *C62a
	E1 map[string]*C62b
}
type C63a struct {
	X int
	*C63b
	E1 string
}
type C63b struct {
	X int
	*C63a
	E1 string
}
type C64a struct {
	X int
	*C64b
	E1 string
}
type C64b struct {
	X int
	*C64a
	E1 []*C64a
}
type C65a struct {
	X int
	*C65b
	E1 string
}
type C65b struct {
	X int
	*C65a
	E1 map[string]*C65b
}
type C66a struct {
	X int
	*C66b
	E1 string
}
type C66b struct {
	X  int
	E0 map[string]C66a
	E1 string
}
type C67a struct {
	X int
	*C67b
	E1 string
}
type C67b struct {
	X  int
	E0 map[string]C67a
	E1 []*C67a
}
type C68a struct {
	X int
	*C68b
	E1 string
}
type C68b struct {
	X  int
	E0 map[string]C68a
	E1 map[string]*C68b
}
type C69a struct {
	X int
	*C69b
	E1 string
}
type C69b struct {
	X  int
	E0 *C69b
	E1 string
}
type C70a struct {
	X int
	*C70b
	E1 string
}
type C70b struct {
	X  int
	E0 *C70b
	E1 []*C70a
}
type C71a struct {
	X int
	*C71b
	E1 string
}
type C71b struct {
	X  int
	E0 *C71b
	E1 map[string]*C71b
}
type C72a struct {
	X int
	*C72b
	E1 string
}
type C72b struct {
	X int
	*C72b
	E1 string
}
type C73a struct {
	X int
	*C73b
	E1 string
}
type C73b struct {
	X int
	*C73b
	E1 []*C73a
}
type C74a struct {
	X int
	*C74b
	E1 string
}
type C74b struct {
	X int
	*C74b
	E1 map[string]*C74b
}
type C75a struct {
	X int
	*C75b
	E1 *C75a
}
type C75b struct {
	X  int
	E0 *C75a
	E1 string
}
type C76a struct {
	X int
	*C76b
	E1 *C76a
}
type C76b struct {
	X  int
	E0 *C76a
	E1 []*C76a
}
type C77a struct {
	X int
	*C77b
	E1 *C77a
}
type C77b struct {
	X  int
	E0 *C77a
	E1 map[string]*C77b
}
type C78a struct {
	X int
	*C78b
	E1 *C78a
}
type C78b struct {
	X int
	*C78a
	E1 string
}
type C79a struct {
	X int
	*C79b
	E1 *C79a
}
type C79b struct {
	X int
	*C79a
	E1 []*C79a
}
type C80a struct {
	X int
	*C80b
	E1 *C80a
}
type C80b struct {
	X int
	*C80a
	E1 map[string]*C80b
}
type C81a struct {
	X int
	*C81b
	E1 *C81a
}
type C81b struct {
	X  int
	E0 map[string]C81a
	E1 string
}
type C82a struct {
	X int
	*C82b
	E1 *C82a
}
type C82b struct {
	X  int
	E0 map[string]C82a
	E1 []*C82a
}
type C83a struct {
	X int
	*C83b
	E1 *C83a
}
type C83b struct {
	X  int
	E0 map[string]C83a
	E1 map[string]*C83b
}
type C84a struct {
	X int
	*C84b
	E1 *C84a
}
type C84b struct {
	X  int
	E0 *C84b
	E1 string
}
type C85a struct {
	X int
	*C85b
	E1 *C85a
}
type C85b struct {
	X  int
	E0 *C85b
	E1 []*C85a
}
type C86a struct {
	X int
	*C86b
	E1 *C86a
}
type C86b struct {
	X  int
	E0 *C86b
	E1 map[string]*C86b
}
type C87a struct {
	X int
	*C87b
	E1 *C87a
}
type C87b struct {
	X int
	*C87b
	E1 string
}
type C88a struct {
	X int
	*C88b
	E1 *C88a
}
type C88b struct {
	X int
	*C88b
	E1 []*C88a
}
type C89a struct {
	X int
	*C89b
	E1 *C89a
}
type C89b struct {
	X int
	*C89b
	E1 map[string]*C89b
}
type C90a struct {
	X  int
	E0 map[string]C90b
	E1 string
}
type C90b struct {
	X  int
	E0 *C90a
	E1 string
}
type C91a struct {
	X  int
	E0 map[string]C91b
	E1 string
}
type C91b struct {
	X  int
	E0 *C91a
	E1 []*C91a
}
type C92a struct {
	X  int
	E0 map[string]C92b
	E1 string
}
type C92b struct {
	X  int
	E0 *C92a
	E1 map[string]*C92b
}
type C93a struct {
	X  int
	E0 map[string]C93b
	E1 string
}
type C93b struct {
	X int
	*C93a
	E1 string
}
type C94a struct {
	X  int
	E0 map[string]C94b
	E1 string
}
type C94b struct {
	X int
	*C94a
	E1 []*C94a
}
type C95a struct {
	X  int
	E0 map[string]C95b
	E1 string
}
type C95b struct {
	X int
	*C95a
	E1 map[string]*C95b
}
type C96a struct {
	X  int
	E0 map[string]C96b
	E1 string
}
type C96b struct {
	X  int
	E0 map[string]C96a
	E1 string
}
type C97a struct {
	X  int
	E0 map[string]C97b
	E1 string
}
type C97b struct {
	X  int
	E0 map[string]C97a
	E1 []*C97a
}
type C98a struct {
	X  int
	E0 map[string]C98b
	E1 string
}
type C98b struct {
	X  int
	E0 map[string]C98a
	E1 map[string]*C98b
}
type C99a struct {
	X  int
	E0 map[string]C99b
	E1 string
}
type C99b struct {
	X  int
	E0 *C99b
	E1 string
}
type C100a struct {
	X  int
	E0 map[string]C100b
	E1 string
}
type C100b struct {
	X  int
	E0 *C100b
	E1 []*C100a
}
type C101a struct {
	X  int
	E0 map[string]C101b
	E1 string
}
type C101b struct {
	X  int
	E0 *C101b
	E1 map[string]*C101b
}
type C102a struct {
	X  int
	E0 map[string]C102b
	E1 string
}
type C102b struct {
	X int
	*C102b
	E1 string
}
type C103a struct {
	X  int
	E0 map[string]C103b
	E1 string
}
type C103b struct {
	X int
	*C103b
	E1 []*C103a
}
type C104a struct {
	X  int
	E0 map[string]C104b
	E1 string
}
type C104b struct {
	X int
	*C104b
	E1 map[string]*C104b
}
type C105a struct {
	X  int
	E0 map[string]C105b
	E1 *C105a
}
type C105b struct {
	X  int
	E0 *C105a
	E1 string
}
type C106a struct {
	X  int
	E0 map[string]C106b
	E1 *C106a
}
type C106b struct {
	X  int
	E0 *C106a
	E1 []*C106a
}
type C107a struct {
	X  int
	E0 map[string]C107b
	E1 *C107a
}
type C107b struct {
	X  int
	E0 *C107a
	E1 map[string]*C107b
}
type C108a struct {
	X  int
	E0 map[string]C108b
	E1 *C108a
}
type C108b struct {
	X int
	*C108a
	E1 string
}
type C109a struct {
	X  int
	E0 map[string]C109b
	E1 *C109a
}
type C109b struct {
	X int
	*C109a
	E1 []*C109a
}
type C110a struct {
	X  int
	E0 map[string]C110b
	E1 *C110a
}
type C110b struct {
	X int
	*C110a
	E1 map[string]*C110b
}
type C111a struct {
	X  int
	E0 map[string]C111b
	E1 *C111a
}
type C111b struct {
	X  int
	E0 map[string]C111a
	E1 string
}
type C112a struct {
	X  int
	E0 map[string]C112b
	E1 *C112a
}
type C112b struct {
	X  int
	E0 map[string]C112a
	E1 []*C112a
}
type C113a struct {
	X  int
	E0 map[string]C113b
	E1 *C113a
}
type C113b struct {
	X  int
	E0 map[string]C113a
	E1 map[string]*C113b
}
type C114a struct {
	X  int
	E0 map[string]C114b
	E1 *C114a
}
type C114b struct {
	X  int
	E0 *C114b
	E1 string
}
type C115a struct {
	X  int
	E0 map[string]C115b
	E1 *C115a
}
type C115b struct {
	X  int
	E0 *C115b
	E1 []*C115a
}
type C116a struct {
	X  int
	E0 map[string]C116b
	E1 *C116a
}
type C116b struct {
	X  int
	E0 *C116b
	E1 map[string]*C116b
}
type C117a struct {
	X  int
	E0 map[string]C117b
	E1 *C117a
}
type C117b struct {
	X int
	*C117b
	E1 string
}
type C118a struct {
	X  int
	E0 map[string]C118b
	E1 *C118a
}
type C118b struct {
	X int
	*C118b
	E1 []*C118a
}
type C119a struct {
	X  int
	E0 map[string]C119b
	E1 *C119a
}
type C119b struct {
	X int
	*C119b
	E1 map[string]*C119b
}
type C120a struct {
	X  int
	E0 map[string]*C120b
	E1 string
}
type C120b struct {
	X  int
	E0 *C120a
	E1 string
}
type C121a struct {
	X  int
	E0 map[string]*C121b
	E1 string
}
type C121b struct {
	X  int
	E0 *C121a
	E1 []*C121a
}
type C122a struct {
	X  int
	E0 map[string]*C122b
	E1 string
}
type C122b struct {
	X  int
	E0 *C122a
	E1 map[string]*C122b
}
type C123a struct {
	X  int
	E0 map[string]*C123b
	E1 string
}
type C123b struct {
	X int
	*C123a
	E1 string
}
type C124a struct {
	X  int
	E0 map[string]*C124b
	E1 string
}
type C124b struct {
	X int
	*C124a
	E1 []*C124a
}
type C125a struct {
	X  int
	E0 map[string]*C125b
	E1 string
}
type C125b struct {
	X int
	*C125a
	E1 map[string]*C125b
}
type C126a struct {
	X  int
	E0 map[string]*C126b
	E1 string
}
type C126b struct {
	X  int
	E0 map[string]C126a
	E1 string
}
type C127a struct {
	X  int
	E0 map[string]*C127b
	E1 string
}
type C127b struct {
	X  int
	E0 map[string]C127a
	E1 []*C127a
}
type C128a struct {
	X  int
	E0 map[string]*C128b
	E1 string
}
type C128b struct {
	X  int
	E0 map[string]C128a
	E1 map[string]*C128b
}
type C129a struct {
	X  int
	E0 map[string]*C129b
	E1 string
}
type C129b struct {
	X  int
	E0 *C129b
	E1 string
}
type C130a struct {
	X  int
	E0 map[string]*C130b
	E1 string
}
type C130b struct {
	X  int
	E0 *C130b
	E1 []*C130a
}
type C131a struct {
	X  int
	E0 map[string]*C131b
	E1 string
}
type C131b struct {
	X  int
	E0 *C131b
	E1 map[string]*C131b
}
type C132a struct {
	X  int
	E0 map[string]*C132b
	E1 string
}
type C132b struct {
	X int
	*C132b
	E1 string
}
type C133a struct {
	X  int
	E0 map[string]*C133b
	E1 string
}
type C133b struct {
	X int
	*C133b
	E1 []*C133a
}
type C134a struct {
	X  int
	E0 map[string]*C134b
	E1 string
}
type C134b struct {
	X int
	*C134b
	E1 map[string]*C134b
}
type C135a struct {
	X  int
	E0 map[string]*C135b
	E1 *C135a
}
type C135b struct {
	X  int
	E0 *C135a
	E1 string
}
type C136a struct {
	X  int
	E0 map[string]*C136b
	E1 *C136a
}
type C136b struct {
	X  int
	E0 *C136a
	E1 []*C136a
}
type C137a struct {
	X  int
	E0 map[string]*C137b
	E1 *C137a
}
type C137b struct {
	X  int
	E0 *C137a
	E1 map[string]*C137b
}
type C138a struct {
	X  int
	E0 map[string]*C138b
	E1 *C138a
}
type C138b struct {
	X int
	*C138a
	E1 string
}
type C139a struct {
	X  int
	E0 map[string]*C139b
	E1 *C139a
}
type C139b struct {
	X int
	*C139a
	E1 []*C139a
}
type C140a struct {
	X  int
	E0 map[string]*C140b
	E1 *C140a
}
type C140b struct {
	X int
	*C140a
	E1 map[string]*C140b
}
type C141a struct {
	X  int
	E0 map[string]*C141b
	E1 *C141a
}
type C141b struct {
	X  int
	E0 map[string]C141a
	E1 string
}
type C142a struct {
	X  int
	E0 map[string]*C142b
	E1 *C142a
}
type C142b struct {
	X  int
	E0 map[string]C142a
	E1 []*C142a
}
type C143a struct {
	X  int
	E0 map[string]*C143b
	E1 *C143a
}
type C143b struct {
	X  int
	E0 map[string]C143a
	E1 map[string]*C143b
}
type C144a struct {
	X  int
	E0 map[string]*C144b
	E1 *C144a
}
type C144b struct {
	X  int
	E0 *C144b
	E1 string
}
type C145a struct {
	X  int
	E0 map[string]*C145b
	E1 *C145a
}
type C145b struct {
	X  int
	E0 *C145b
	E1 []*C145a
}
type C146a struct {
	X  int
	E0 map[string]*C146b
	E1 *C146a
}
type C146b struct {
	X  int
	E0 *C146b
	E1 map[string]*C146b
}
type C147a struct {
	X  int
	E0 map[string]*C147b
	E1 *C147a
}
type C147b struct {
	X int
	*C147b
	E1 string
}
type C148a struct {
	X  int
	E0 map[string]*C148b
	E1 *C148a
}
type C148b struct {
	X int
	*C148b
	E1 []*C148a
}
type C149a struct {
	X  int
	E0 map[string]*C149b
	E1 *C149a
}
type C149b struct {
	X int
	*C149b
	E1 map[string]*C149b
}
type D0a struct {
	X  int
	E0 *D0a
	E1 *D0b
}
type D0b struct {
	X  int
	E0 *D0a
	E1 *D0a
}
type D0c struct {
	X  int
	E0 *D0a
	E1 *D0a
}
type D1a struct {
	X  int
	E0 *D1a
	E1 *D1b
}
type D1b struct {
	X  int
	E0 *D1a
	E1 *D1a
}
type D1c struct {
	X  int
	E0 *D1a
	E1 *D1b
}
type D2a struct {
	X  int
	E0 *D2a
	E1 *D2b
}
type D2b struct {
	X  int
	E0 *D2a
	E1 *D2a
}
type D2c struct {
	X  int
	E0 *D2a
	E1 *D2c
}
type D3a struct {
	X  int
	E0 *D3a
	E1 *D3b
}
type D3b struct {
	X  int
	E0 *D3a
	E1 *D3a
}
type D3c struct {
	X  int
	E0 *D3b
	E1 *D3a
}
type D4a struct {
	X  int
	E0 *D4a
	E1 *D4b
}
type D4b struct {
	X  int
	E0 *D4a
	E1 *D4a
}
type D4c struct {
	X  int
	E0 *D4b
	E1 *D4b
}
type D5a struct {
	X  int
	E0 *D5a
	E1 *D5b
}
type D5b struct {
	X  int
	E0 *D5a
	E1 *D5a
}
type D5c struct {
	X  int
	E0 *D5b
	E1 *D5c
}
type D6a struct {
	X  int
	E0 *D6a
	E1 *D6b
}
type D6b struct {
	X  int
	E0 *D6a
	E1 *D6a
}
type D6c struct {
	X  int
	E0 *D6c
	E1 *D6a
}
type D7a struct {
	X  int
	E0 *D7a
	E1 *D7b
}
type D7b struct {
	X  int
	E0 *D7a
	E1 *D7a
}
type D7c struct {
	X  int
	E0 *D7c
	E1 *D7b
}
type D8a struct {
	X  int
	E0 *D8a
	E1 *D8b
}
type D8b struct {
	X  int
	E0 *D8a
	E1 *D8a
}
type D8c struct {
	X  int
	E0 *D8c
	E1 *D8c
}
type D9a struct {
	X  int
	E0 *D9a
	E1 *D9b
}
type D9b struct {
	X  int
	E0 *D9a
	E1 *D9b
}
type D9c struct {
	X  int
	E0 *D9a
	E1 *D9a
}
type D10a struct {
	X  int
	E0 *D10a
	E1 *D10b
}
type D10b struct {
	X  int
	E0 *D10a
	E1 *D10b
}
type D10c struct {
	X  int
	E0 *D10a
	E1 *D10b
}
type D11a struct {
	X  int
	E0 *D11a
	E1 *D11b
}
type D11b struct {
	X  int
	E0 *D11a
	E1 *D11b
}
type D11c struct {
	X  int
	E0 *D11a
	E1 *D11c
}
type D12a struct {
	X  int
	E0 *D12a
	E1 *D12b
}
type D12b struct {
	X  int
	E0 *D12a
	E1 *D12b
}
type D12c struct {
	X  int
	E0 *D12b
	E1 *D12a
}
type D13a struct {
	X  int
	E0 *D13a
	E1 *D13b
}
type D13b struct {
	X  int
	E0 *D13a
	E1 *D13b
}
type D13c struct {
	X  int
	E0 *D13b
	E1 *D13b
}
type D14a struct {
	X  int
	E0 *D14a
	E1 *D14b
}
type D14b struct {
	X  int
	E0 *D14a
	E1 *D14b
}
type D14c struct {
	X  int
	E0 *D14b
	E1 *D14c
}
type D15a struct {
	X  int
	E0 *D15a
	E1 *D15b
}
type D15b struct {
	X  int
	E0 *D15a
	E1 *D15b
}
type D15c struct {
	X  int
	E0 *D15c
	E1 *D15a
}
type D16a struct {
	X  int
	E0 *D16a
	E1 *D16b
}
type D16b struct {
	X  int
	E0 *D16a
	E1 *D16b
}
type D16c struct {
	X  int
	E0 *D16c
	E1 *D16b
}
type D17a struct {
	X  int
	E0 *D17a
	E1 *D17b
}
type D17b struct {
	X  int
	E0 *D17a
	E1 *D17b
}
type D17c struct {
	X  int
	E0 *D17c
	E1 *D17c
}
type D18a struct {
	X  int
	E0 *D18a
	E1 *D18b
}
type D18b struct {
	X  int
	E0 *D18a
	E1 *D18c
}
type D18c struct {
	X  int
	E0 *D18a
	E1 *D18a
}
type D19a struct {
	X  int
	E0 *D19a
	E1 *D19b
}
type D19b struct {
	X  int
	E0 *D19a
	E1 *D19c
}
type D19c struct {
	X  int
	E0 *D19a
	E1 *D19b
}
type D20a struct {
	X  int
	E0 *D20a
	E1 *D20b
}
type D20b struct {
	X  int
	E0 *D20a
	E1 *D20c
}
type D20c struct {
	X  int
	E0 *D20a
	E1 *D20c
}
type D21a struct {
	X  int
	E0 *D21a
	E1 *D21b
}
type D21b struct {
	X  int
	E0 *D21a
	E1 *D21c
}
type D21c struct {
	X  int
	E0 *D21b
	E1 *D21a
}
type D22a struct {
	X  int
	E0 *D22a
	E1 *D22b
}
type D22b struct {
	X  int
	E0 *D22a
	E1 *D22c
}
type D22c struct {
	X  int
	E0 *D22b
	E1 *D22b
}
type D23a struct {
	X  int
	E0 *D23a
	E1 *D23b
}
type D23b struct {
	X  int
	E0 *D23a
	E1 *D23c
}
type D23c struct {
	X  int
	E0 *D23b
	E1 *D23c
}
type D24a struct {
	X  int
	E0 *D24a
	E1 *D24b
}
type D24b struct {
	X  int
	E0 *D24a
	E1 *D24c
}
type D24c struct {
	X  int
	E0 *D24c
	E1 *D24a
}
type D25a struct {
	X  int
	E0 *D25a
	E1 *D25b
}
type D25b struct {
	X  int
	E0 *D25a
	E1 *D25c
}
type D25c struct {
	X  int
	E0 *D25c
	E1 *D25b
}
type D26a struct {
	X  int
	E0 *D26a
	E1 *D26b
}
type D26b struct {
	X  int
	E0 *D26a
	E1 *D26c
}
type D26c struct {
	X  int
	E0 *D26c
	E1 *D26c
}
type D27a struct {
	X  int
	E0 *D27a
	E1 *D27b
}
type D27b struct {
	X  int
	E0 *D27b
	E1 *D27b
}
type D27c struct {
	X  int
	E0 *D27a
	E1 *D27a
}
type D28a struct {
	X  int
	E0 *D28a
	E1 *D28b
}
type D28b struct {
	X  int
	E0 *D28b
	E1 *D28b
}
type D28c struct {
	X  int
	E0 *D28a
	E1 *D28b
}
type D29a struct {
	X  int
	E0 *D29a
	E1 *D29b
}
type D29b struct {
	X  int
	E0 *D29b
	E1 *D29b
}
type D29c struct {
	X  int
	E0 *D29a
	E1 *D29c
}
type D30a struct {
	X  int
	E0 *D30a
	E1 *D30b
}
type D30b struct {
	X  int
	E0 *D30b
	E1 *D30b
}
type D30c struct {
	X  int
	E0 *D30b
	E1 *D30a
}
type D31a struct {
	X  int
	E0 *D31a
	E1 *D31b
}
type D31b struct {
	X  int
	E0 *D31b
	E1 *D31b
}
type D31c struct {
	X  int
	E0 *D31b
	E1 *D31b
}
type D32a struct {
	X  int
	E0 *D32a
	E1 *D32b
}
type D32b struct {
	X  int
	E0 *D32b
	E1 *D32b
}
type D32c struct {
	X  int
	E0 *D32b
	E1 *D32c
}
type D33a struct {
	X  int
	E0 *D33a
	E1 *D33b
}
type D33b struct {
	X  int
	E0 *D33b
	E1 *D33b
}
type D33c struct {
	X  int
	E0 *D33c
	E1 *D33a
}
type D34a struct {
	X  int
	E0 *D34a
	E1 *D34b
}
type D34b struct {
	X  int
	E0 *D34b
	E1 *D34b
}
type D34c struct {
	X  int
	E0 *D34c
	E1 *D34b
}
type D35a struct {
	X  int
	E0 *D35a
	E1 *D35b
}
type D35b struct {
	X  int
	E0 *D35b
	E1 *D35b
}
type D35c struct {
	X  int
	E0 *D35c
	E1 *D35c
}
type D36a struct {
	X  int
	E0 *D36a
	E1 *D36b
}
type D36b struct {
	X  int
	E0 *D36b
	E1 *D36c
}
type D36c struct {
	X  int
	E0 *D36a
	E1 *D36a
}
type D37a struct {
	X  int
	E0 *D37a
	E1 *D37b
}
type D37b struct {
	X  int
	E0 *D37b
	E1 *D37c
}
type D37c struct {
	X  int
	E0 *D37a
	E1 *D37b
}
type D38a struct {
	X  int
	E0 *D38a
	E1 *D38b
}
type D38b struct {
	X  int
	E0 *D38b
	E1 *D38c
}
type D38c struct {
	X  int
	E0 *D38a
	E1 *D38c
}
type D39a struct {
	X  int
	E0 *D39a
	E1 *D39b
}
type D39b struct {
	X  int
	E0 *D39b
	E1 *D39c
}
type D39c struct {
	X  int
	E0 *D39b
	E1 *D39a
}
type D40a struct {
	X  int
	E0 *D40a
	E1 *D40b
}
type D40b struct {
	X  int
	E0 *D40b
	E1 *D40c
}
type D40c struct {
	X  int
	E0 *D40b
	E1 *D40b
}
type D41a struct {
	X  int
	E0 *D41a
	E1 *D41b
}
type D41b struct {
	X  int
	E0 *D41b
	E1 *D41c
}
type D41c struct {
	X  int
	E0 *D41b
	E1 *D41c
}
type D42a struct {
	X  int
	E0 *D42a
	E1 *D42b
}
type D42b struct {
	X  int
	E0 *D42b
	E1 *D42c
}
type D42c struct {
	X  int
	E0 *D42c
	E1 *D42a
}
type D43a struct {
	X  int
	E0 *D43a
	E1 *D43b
}
type D43b struct {
	X  int
	E0 *D43b
	E1 *D43c
}
type D43c struct {
	X  int
	E0 *D43c
	E1 *D43b
}
type D44a struct {
	X  int
	E0 *D44a
	E1 *D44b
}
type D44b struct {
	X  int
	E0 *D44b
	E1 *D44c
}
type D44c struct {
	X  int
	E0 *D44c
	E1 *D44c
}
type D45a struct {
	X  int
	E0 *D45a
	E1 *D45b
}
type D45b struct {
	X  int
	E0 *D45c
	E1 *D45c
}
type D45c struct {
	X  int
	E0 *D45a
	E1 *D45a
}
type D46a struct {
	X  int
	E0 *D46a
	E1 *D46b
}
type D46b struct {
	X  int
	E0 *D46c
	E1 *D46c
}
type D46c struct {
	X  int
	E0 *D46a
	E1 *D46b
}
type D47a struct {
	X  int
	E0 *D47a
	E1 *D47b
}
type D47b struct {
	X  int
	E0 *D47c
	E1 *D47c
}
type D47c struct {
	X  int
	E0 *D47a
	E1 *D47c
}
type D48a struct {
	X  int
	E0 *D48a
	E1 *D48b
}
type D48b struct {
	X  int
	E0 *D48c
	E1 *D48c
}
type D48c struct {
	X  int
	E0 *D48b
	E1 *D48a
}
type D49a struct {
	X  int
	E0 *D49a
	E1 *D49b
}
type D49b struct {
	X  int
	E0 *D49c
	E1 *D49c
}
type D49c struct {
	X  int
	E0 *D49b
	E1 *D49b
}
type D50a struct {
	X  int
	E0 *D50a
	E1 *D50b
}
type D50b struct {
	X  int
	E0 *D50c
	E1 *D50c
}
type D50c struct {
	X  int
	E0 *D50b
	E1 *D50c
}
type D51a struct {
	X  int
	E0 *D51a
	E1 *D51b
}
type D51b struct {
	X  int
	E0 *D51c
	E1 *D51c
}
type D51c struct {
	X  int
	E0 *D51c
	E1 *D51a
}
type D52a struct {
	X  int
	E0 *D52a
	E1 *D52b
}
type D52b struct {
	X  int
	E0 *D52c
	E1 *D52c
}
type D52c struct {
	X  int
	E0 *D52c
	E1 *D52b
}
type D53a struct {
	X  int
	E0 *D53a
	E1 *D53b
}
type D53b struct {
	X  int
	E0 *D53c
	E1 *D53c
}
type D53c struct {
	X  int
	E0 *D53c
	E1 *D53c
}
type D54a struct {
	X  int
	E0 *D54a
	E1 *D54c
}
type D54b struct {
	X  int
	E0 *D54a
	E1 *D54a
}
type D54c struct {
	X  int
	E0 *D54a
	E1 *D54a
}
type D55a struct {
	X  int
	E0 *D55a
	E1 *D55c
}
type D55b struct {
	X  int
	E0 *D55a
	E1 *D55a
}
type D55c struct {
	X  int
	E0 *D55a
	E1 *D55b
}
type D56a struct {
	X  int
	E0 *D56a
	E1 *D56c
}
type D56b struct {
	X  int
	E0 *D56a
	E1 *D56a
}
type D56c struct {
	X  int
	E0 *D56a
	E1 *D56c
}
type D57a struct {
	X  int
	E0 *D57a
	E1 *D57c
}
type D57b struct {
	X  int
	E0 *D57a
	E1 *D57a
}
type D57c struct {
	X  int
	E0 *D57b
	E1 *D57a
}
type D58a struct {
	X  int
	E0 *D58a
	E1 *D58c
}
type D58b struct {
	X  int
	E0 *D58a
	E1 *D58a
}
type D58c struct {
	X  int
	E0 *D58b
	E1 *D58b
}
type D59a struct {
	X  int
	E0 *D59a
	E1 *D59c
}
type D59b struct {
	X  int
	E0 *D59a
	E1 *D59a
}
type D59c struct {
	X  int
	E0 *D59b
	E1 *D59c
}
type D60a struct {
	X  int
	E0 *D60a
	E1 *D60c
}
type D60b struct {
	X  int
	E0 *D60a
	E1 *D60a
}
type D60c struct {
	X  int
	E0 *D60c
	E1 *D60a
}
type D61a struct {
	X  int
	E0 *D61a
	E1 *D61c
}
type D61b struct {
	X  int
	E0 *D61a
	E1 *D61a
}
type D61c struct {
	X  int
	E0 *D61c
	E1 *D61b
}
type D62a struct {
	X  int
	E0 *D62a
	E1 *D62c
}
type D62b struct {
	X  int
	E0 *D62a
	E1 *D62a
}
type D62c struct {
	X  int
	E0 *D62c
	E1 *D62c
}
type D63a struct {
	X  int
	E0 *D63a
	E1 *D63c
}
type D63b struct {
	X  int
	E0 *D63a
	E1 *D63b
}
type D63c struct {
	X  int
	E0 *D63a
	E1 *D63a
}
type D64a struct {
	X  int
	E0 *D64a
	E1 *D64c
}
type D64b struct {
	X  int
	E0 *D64a
	E1 *D64b
}
type D64c struct {
	X  int
	E0 *D64a
	E1 *D64b
}
type D65a struct {
	X  int
	E0 *D65a
	E1 *D65c
}
type D65b struct {
	X  int
	E0 *D65a
	E1 *D65b
}
type D65c struct {
	X  int
	E0 *D65a
	E1 *D65c
}
type D66a struct {
	X  int
	E0 *D66a
	E1 *D66c
}
type D66b struct {
	X  int
	E0 *D66a
	E1 *D66b
}
type D66c struct {
	X  int
	E0 *D66b
	E1 *D66a
}
type D67a struct {
	X  int
	E0 *D67a
	E1 *D67c
}
type D67b struct {
	X  int
	E0 *D67a
	E1 *D67b
}
type D67c struct {
	X  int
	E0 *D67b
	E1 *D67b
}
type D68a struct {
	X  int
	E0 *D68a
	E1 *D68c
}
type D68b struct {
	X  int
	E0 *D68a
	E1 *D68b
}
type D68c struct {
	X  int
	E0 *D68b
	E1 *D68c
}
type D69a struct {
	X  int
	E0 *D69a
	E1 *D69c
}
type D69b struct {
	X  int
	E0 *D69a
	E1 *D69b
}
type D69c struct {
	X  int
	E0 *D69c
	E1 *D69a
}
type D70a struct {
	X  int
	E0 *D70a
	E1 *D70c
}
type D70b struct {
	X  int
	E0 *D70a
	E1 *D70b
}
type D70c struct {
	X  int
	E0 *D70c
	E1 *D70b
}
type D71a struct {
	X  int
	E0 *D71a
	E1 *D71c
}
type D71b struct {
	X  int
	E0 *D71a
	E1 *D71b
}
type D71c struct {
	X  int
	E0 *D71c
	E1 *D71c
}
type D72a struct {
	X  int
	E0 *D72a
	E1 *D72c
}
type D72b struct {
	X  int
	E0 *D72a
	E1 *D72c
}
type D72c struct {
	X  int
	E0 *D72a
	E1 *D72a
}
type D73a struct {
	X  int
	E0 *D73a
	E1 *D73c
}
type D73b struct {
	X  int
	E0 *D73a
	E1 *D73c
}
type D73c struct {
	X  int
	E0 *D73a
	E1 *D73b
}
type D74a struct {
	X  int
	E0 *D74a
	E1 *D74c
}
type D74b struct {
	X  int
	E0 *D74a
	E1 *D74c
}
type D74c struct {
	X  int
	E0 *D74a
	E1 *D74c
}
type D75a struct {
	X  int
	E0 *D75a
	E1 *D75c
}
type D75b struct {
	X  int
	E0 *D75a
	E1 *D75c
}
type D75c struct {
	X  int
	E0 *D75b
	E1 *D75a
}
type D76a struct {
	X  int
	E0 *D76a
	E1 *D76c
}
type D76b struct {
	X  int
	E0 *D76a
	E1 *D76c
}
type D76c struct {
	X  int
	E0 *D76b
	E1 *D76b
}
type D77a struct {
	X  int
	E0 *D77a
	E1 *D77c
}
type D77b struct {
	X  int
	E0 *D77a
	E1 *D77c
}
type D77c struct {
	X  int
	E0 *D77b
	E1 *D77c
}
type D78a struct {
	X  int
	E0 *D78a
	E1 *D78c
}
type D78b struct {
	X  int
	E0 *D78a
	E1 *D78c
}
type D78c struct {
	X  int
	E0 *D78c
	E1 *D78a
}
type D79a struct {
	X  int
	E0 *D79a
	E1 *D79c
}
type D79b struct {
	X  int
	E0 *D79a
	E1 *D79c
}
type D79c struct {
	X  int
	E0 *D79c
	E1 *D79b
}
type D80a struct {
	X  int
	E0 *D80a
	E1 *D80c
}
type D80b struct {
	X  int
	E0 *D80a
	E1 *D80c
}
type D80c struct {
	X  int
	E0 *D80c
	E1 *D80c
}
type D81a struct {
	X  int
	E0 *D81a
	E1 *D81c
}
type D81b struct {
	X  int
	E0 *D81b
	E1 *D81b
}
type D81c struct {
	X  int
	E0 *D81a
	E1 *D81a
}
type D82a struct {
	X  int
	E0 *D82a
	E1 *D82c
}
type D82b struct {
	X  int
	E0 *D82b
	E1 *D82b
}
type D82c struct {
	X  int
	E0 *D82a
	E1 *D82b
}
type D83a struct {
	X  int
	E0 *D83a
	E1 *D83c
}
type D83b struct {
	X  int
	E0 *D83b
	E1 *D83b
}
type D83c struct {
	X  int
	E0 *D83a
	E1 *D83c
}
type D84a struct {
	X  int
	E0 *D84a
	E1 *D84c
}
type D84b struct {
	X  int
	E0 *D84b
	E1 *D84b
}
type D84c struct {
	X  int
	E0 *D84b
	E1 *D84a
}
type D85a struct {
	X  int
	E0 *D85a
	E1 *D85c
}
type D85b struct {
	X  int
	E0 *D85b
	E1 *D85b
}
type D85c struct {
	X  int
	E0 *D85b
	E1 *D85b
}
type D86a struct {
	X  int
	E0 *D86a
	E1 *D86c
}
type D86b struct {
	X  int
	E0 *D86b
	E1 *D86b
}
type D86c struct {
	X  int
	E0 *D86b
	E1 *D86c
}
type D87a struct {
	X  int
	E0 *D87a
	E1 *D87c
}
type D87b struct {
	X  int
	E0 *D87b
	E1 *D87b
}
type D87c struct {
	X  int
	E0 *D87c
	E1 *D87a
}
type D88a struct {
	X  int
	E0 *D88a
	E1 *D88c
}
type D88b struct {
	X  int
	E0 *D88b
	E1 *D88b
}
type D88c struct {
	X  int
	E0 *D88c
	E1 *D88b
}
type D89a struct {
	X  int
	E0 *D89a
	E1 *D89c
}
type D89b struct {
	X  int
	E0 *D89b
	E1 *D89b
}
type D89c struct {
	X  int
	E0 *D89c
	E1 *D89c
}
type D90a struct {
	X  int
	E0 *D90a
	E1 *D90c
}
type D90b struct {
	X  int
	E0 *D90b
	E1 *D90c
}
type D90c struct {
	X  int
	E0 *D90a
	E1 *D90a
}
type D91a struct {
	X  int
	E0 *D91a
	E1 *D91c
}
type D91b struct {
	X  int
	E0 *D91b
	E1 *D91c
}
type D91c struct {
	X  int
	E0 *D91a
	E1 *D91b
}
type D92a struct {
	X  int
	E0 *D92a
	E1 *D92c
}
type D92b struct {
	X  int
	E0 *D92b
	E1 *D92c
}
type D92c struct {
	X  int
	E0 *D92a
	E1 *D92c
}
type D93a struct {
	X  int
	E0 *D93a
	E1 *D93c
}
type D93b struct {
	X  int
	E0 *D93b
	E1 *D93c
}
type D93c struct {
	X  int
	E0 *D93b
	E1 *D93a
}
type D94a struct {
	X  int
	E0 *D94a
	E1 *D94c
}
type D94b struct {
	X  int
	E0 *D94b
	E1 *D94c
}
type D94c struct {
	X  int
	E0 *D94b
	E1 *D94b
}
type D95a struct {
	X  int
	E0 *D95a
	E1 *D95c
}
type D95b struct {
	X  int
	E0 *D95b
	E1 *D95c
}
type D95c struct {
	X  int
	E0 *D95b
	E1 *D95c
}
type D96a struct {
	X  int
	E0 *D96a
	E1 *D96c
}
type D96b struct {
	X  int
	E0 *D96b
	E1 *D96c
}
type D96c struct {
	X  int
	E0 *D96c
	E1 *D96a
}
type D97a struct {
	X  int
	E0 *D97a
	E1 *D97c
}
type D97b struct {
	X  int
	E0 *D97b
	E1 *D97c
}
type D97c struct {
	X  int
	E0 *D97c
	E1 *D97b
}
type D98a struct {
	X  int
	E0 *D98a
	E1 *D98c
}
type D98b struct {
	X  int
	E0 *D98b
	E1 *D98c
}
type D98c struct {
	X  int
	E0 *D98c
	E1 *D98c
}
type D99a struct {
	X  int
	E0 *D99a
	E1 *D99c
}
type D99b struct {
	X  int
	E0 *D99c
	E1 *D99c
}
type D99c struct {
	X  int
	E0 *D99a
	E1 *D99a
}
type D100a struct {
	X  int
	E0 *D100a
	E1 *D100c
}
type D100b struct {
	X  int
	E0 *D100c
	E1 *D100c
}
type D100c struct {
	X  int
	E0 *D100a
	E1 *D100b
}
type D101a struct {
	X  int
	E0 *D101a
	E1 *D101c
}
type D101b struct {
	X  int
	E0 *D101c
	E1 *D101c
}
type D101c struct {
	X  int
	E0 *D101a
	E1 *D101c
}
type D102a struct {
	X  int
	E0 *D102a
	E1 *D102c
}
type D102b struct {
	X  int
	E0 *D102c
	E1 *D102c
}
type D102c struct {
	X  int
	E0 *D102b
	E1 *D102a
}
type D103a struct {
	X  int
	E0 *D103a
	E1 *D103c
}
type D103b struct {
	X  int
	E0 *D103c
	E1 *D103c
}
type D103c struct {
	X  int
	E0 *D103b
	E1 *D103b
}
type D104a struct {
	X  int
	E0 *D104a
	E1 *D104c
}
type D104b struct {
	X  int
	E0 *D104c
	E1 *D104c
}
type D104c struct {
	X  int
	E0 *D104b
	E1 *D104c
}
type D105a struct {
	X  int
	E0 *D105a
	E1 *D105c
}
type D105b struct {
	X  int
	E0 *D105c
	E1 *D105c
}
type D105c struct {
	X  int
	E0 *D105c
	E1 *D105a
}
type D106a struct {
	X  int
	E0 *D106a
	E1 *D106c
}
type D106b struct {
	X  int
	E0 *D106c
	E1 *D106c
}
type D106c struct {
	X  int
	E0 *D106c
	E1 *D106b
}
type D107a struct {
	X  int
	E0 *D107a
	E1 *D107c
}
type D107b struct {
	X  int
	E0 *D107c
	E1 *D107c
}
type D107c struct {
	X  int
	E0 *D107c
	E1 *D107c
}
type D108a struct {
	X  int
	E0 *D108b
	E1 *D108b
}
type D108b struct {
	X  int
	E0 *D108a
	E1 *D108a
}
type D108c struct {
	X  int
	E0 *D108a
	E1 *D108a
}
type D109a struct {
	X  int
	E0 *D109b
	E1 *D109b
}
type D109b struct {
	X  int
	E0 *D109a
	E1 *D109a
}
type D109c struct {
	X  int
	E0 *D109a
	E1 *D109b
}
type D110a struct {
	X  int
	E0 *D110b
	E1 *D110b
}
type D110b struct {
	X  int
	E0 *D110a
	E1 *D110a
}
type D110c struct {
	X  int
	E0 *D110a
	E1 *D110c
}
type D111a struct {
	X  int
	E0 *D111b
	E1 *D111b
}
type D111b struct {
	X  int
	E0 *D111a
	E1 *D111a
}
type D111c struct {
	X  int
	E0 *D111b
	E1 *D111a
}
type D112a struct {
	X  int
	E0 *D112b
	E1 *D112b
}
type D112b struct {
	X  int
	E0 *D112a
	E1 *D112a
}
type D112c struct {
	X  int
	E0 *D112b
	E1 *D112b
}
type D113a struct {
	X  int
	E0 *D113b
	E1 *D113b
}
type D113b struct {
	X  int
	E0 *D113a
	E1 *D113a
}
type D113c struct {
	X  int
	E0 *D113b
	E1 *D113c
}
type D114a struct {
	X  int
	E0 *D114b
	E1 *D114b
}
type D114b struct {
	X  int
	E0 *D114a
	E1 *D114a
}
type D114c struct {
	X  int
	E0 *D114c
	E1 *D114a
}
type D115a struct {
	X  int
	E0 *D115b
	E1 *D115b
}
type D115b struct {
	X  int
	E0 *D115a
	E1 *D115a
}
type D115c struct {
	X  int
	E0 *D115c
	E1 *D115b
}
type D116a struct {
	X  int
	E0 *D116b
	E1 *D116b
}
type D116b struct {
	X  int
	E0 *D116a
	E1 *D116a
}
type D116c struct {
	X  int
	E0 *D116c
	E1 *D116c
}
type D117a struct {
	X  int
	E0 *D117b
	E1 *D117b
}
type D117b struct {
	X  int
	E0 *D117a
	E1 *D117b
}
type D117c struct {
	X  int
	E0 *D117a
	E1 *D117a
}
type D118a struct {
	X  int
	E0 *D118b
	E1 *D118b
}
type D118b struct {
	X  int
	E0 *D118a
	E1 *D118b
}
type D118c struct {
	X  int
	E0 *D118a
	E1 *D118b
}
type D119a struct {
	X  int
	E0 *D119b
	E1 *D119b
}
type D119b struct {
	X  int
	E0 *D119a
	E1 *D119b
}
type D119c struct {
	X  int
	E0 *D119a
	E1 *D119c
}
type D120a struct {
	X  int
	E0 *D120b
	E1 *D120b
}
type D120b struct {
	X  int
	E0 *D120a
	E1 *D120b
}
type D120c struct {
	X  int
	E0 *D120b
	E1 *D120a
}
type D121a struct {
	X  int
	E0 *D121b
	E1 *D121b
}
type D121b struct {
	X  int
	E0 *D121a
	E1 *D121b
}
type D121c struct {
	X  int
	E0 *D121b
	E1 *D121b
}
type D122a struct {
	X  int
	E0 *D122b
	E1 *D122b
}
type D122b struct {
	X  int
	E0 *D122a
	E1 *D122b
}
type D122c struct {
	X  int
	E0 *D122b
	E1 *D122c
}
type D123a struct {
	X  int
	E0 *D123b
	E1 *D123b
}
type D123b struct {
	X  int
	E0 *D123a
	E1 *D123b
}
type D123c struct {
	X  int
	E0 *D123c
	E1 *D123a
}
type D124a struct {
	X  int
	E0 *D124b
	E1 *D124b
}
type D124b struct {
	X  int
	E0 *D124a
	E1 *D124b
}
type D124c struct {
	X  int
	E0 *D124c
	E1 *D124b
}
type D125a struct {
	X  int
	E0 *D125b
	E1 *D125b
}
type D125b struct {
	X  int
	E0 *D125a
	E1 *D125b
}
type D125c struct {
	X  int
	E0 *D125c
	E1 *D125c
}
type D126a struct {
	X  int
	E0 *D126b
	E1 *D126b
}
type D126b struct {
	X  int
	E0 *D126a
	E1 *D126c
}
type D126c struct {
	X  int
	E0 *D126a
	E1 *D126a
}
type D127a struct {
	X  int
	E0 *D127b
	E1 *D127b
}
type D127b struct {
	X  int
	E0 *D127a
	E1 *D127c
}
type D127c struct {
	X  int
	E0 *D127a
	E1 *D127b
}
type D128a struct {
	X  int
	E0 *D128b
	E1 *D128b
}
type D128b struct {
	X  int
	E0 *D128a
	E1 *D128c
}
type D128c struct {
	X  int
	E0 *D128a
	E1 *D128c
}
type D129a struct {
	X  int
	E0 *D129b
	E1 *D129b
}
type D129b struct {
	X  int
	E0 *D129a
	E1 *D129c
}
type D129c struct {
	X  int
	E0 *D129b
	E1 *D129a
}
type D130a struct {
	X  int
	E0 *D130b
	E1 *D130b
}
type D130b struct {
	X  int
	E0 *D130a
	E1 *D130c
}
type D130c struct {
	X  int
	E0 *D130b
	E1 *D130b
}
type D131a struct {
	X  int
	E0 *D131b
	E1 *D131b
}
type D131b struct {
	X  int
	E0 *D131a
	E1 *D131c
}
type D131c struct {
	X  int
	E0 *D131b
	E1 *D131c
}
type D132a struct {
	X  int
	E0 *D132b
	E1 *D132b
}
type D132b struct {
	X  int
	E0 *D132a
	E1 *D132c
}
type D132c struct {
	X  int
	E0 *D132c
	E1 *D132a
}
type D133a struct {
	X  int
	E0 *D133b
	E1 *D133b
}
type D133b struct {
	X  int
	E0 *D133a
	E1 *D133c
}
type D133c struct {
	X  int
	E0 *D133c
	E1 *D133b
}
type D134a struct {
	X  int
	E0 *D134b
	E1 *D134b
}
type D134b struct {
	X  int
	E0 *D134a
	E1 *D134c
}
type D134c struct {
	X  int
	E0 *D134c
	E1 *D134c
}
type D135a struct {
	X  int
	E0 *D135b
	E1 *D135b
}
type D135b struct {
	X  int
	E0 *D135b
	E1 *D135b
}
type D135c struct {
	X  int
	E0 *D135a
	E1 *D135a
}
type D136a struct {
	X  int
	E0 *D136b
	E1 *D136b
}
type D136b struct {
	X  int
	E0 *D136b
	E1 *D136b
}
type D136c struct {
	X  int
	E0 *D136a
	E1 *D136b
}
type D137a struct {
	X  int
	E0 *D137b
	E1 *D137b
}
type D137b struct {
	X  int
	E0 *D137b
	E1 *D137b
}
type D137c struct {
	X  int
	E0 *D137a
	E1 *D137c
}
type D138a struct {
	X  int
	E0 *D138b
	E1 *D138b
}
type D138b struct {
	X  int
	E0 *D138b
	E1 *D138b
}
type D138c struct {
	X  int
	E0 *D138b
	E1 *D138a
}
type D139a struct {
	X  int
	E0 *D139b
	E1 *D139b
}
type D139b struct {
	X  int
	E0 *D139b
	E1 *D139b
}
type D139c struct {
	X  int
	E0 *D139b
	E1 *D139b
}
type D140a struct {
	X  int
	E0 *D140b
	E1 *D140b
}
type D140b struct {
	X  int
	E0 *D140b
	E1 *D140b
}
type D140c struct {
	X  int
	E0 *D140b
	E1 *D140c
}
type D141a struct {
	X  int
	E0 *D141b
	E1 *D141b
}
type D141b struct {
	X  int
	E0 *D141b
	E1 *D141b
}
type D141c struct {
	X  int
	E0 *D141c
	E1 *D141a
}
type D142a struct {
	X  int
	E0 *D142b
	E1 *D142b
}
type D142b struct {
	X  int
	E0 *D142b
	E1 *D142b
}
type D142c struct {
	X  int
	E0 *D142c
	E1 *D142b
}
type D143a struct {
	X  int
	E0 *D143b
	E1 *D143b
}
type D143b struct {
	X  int
	E0 *D143b
	E1 *D143b
}
type D143c struct {
	X  int
	E0 *D143c
	E1 *D143c
}
type D144a struct {
	X  int
	E0 *D144b
	E1 *D144b
}
type D144b struct {
	X  int
	E0 *D144b
	E1 *D144c
}
type D144c struct {
	X  int
	E0 *D144a
	E1 *D144a
}
type D145a struct {
	X  int
	E0 *D145b
	E1 *D145b
}
type D145b struct {
	X  int
	E0 *D145b
	E1 *D145c
}
type D145c struct {
	X  int
	E0 *D145a
	E1 *D145b
}
type D146a struct {
	X  int
	E0 *D146b
	E1 *D146b
}
type D146b struct {
	X  int
	E0 *D146b
	E1 *D146c
}
type D146c struct {
	X  int
	E0 *D146a
	E1 *D146c
}
type D147a struct {
	X  int
	E0 *D147b
	E1 *D147b
}
type D147b struct {
	X  int
	E0 *D147b
	E1 *D147c
}
type D147c struct {
	X  int
	E0 *D147b
	E1 *D147a
}
type D148a struct {
	X  int
	E0 *D148b
	E1 *D148b
}
type D148b struct {
	X  int
	E0 *D148b
	E1 *D148c
}
type D148c struct {
	X  int
	E0 *D148b
	E1 *D148b
}
type D149a struct {
	X  int
	E0 *D149b
	E1 *D149b
}
type D149b struct {
	X  int
	E0 *D149b
	E1 *D149c
}
type D149c struct {
	X  int
	E0 *D149b
	E1 *D149c
}
type D150a struct {
	X  int
	E0 *D150b
	E1 *D150b
}
type D150b struct {
	X  int
	E0 *D150b
	E1 *D150c
}
type D150c struct {
	X  int
	E0 *D150c
	E1 *D150a
}
type D151a struct {
	X  int
	E0 *D151b
	E1 *D151b
}
type D151b struct {
	X  int
	E0 *D151b
	E1 *D151c
}
type D151c struct {
	X  int
	E0 *D151c
	E1 *D151b
}
type D152a struct {
	X  int
	E0 *D152b
	E1 *D152b
}
type D152b struct {
	X  int
	E0 *D152b
	E1 *D152c
}
type D152c struct {
	X  int
	E0 *D152c
	E1 *D152c
}
type D153a struct {
	X  int
	E0 *D153b
	E1 *D153b
}
type D153b struct {
	X  int
	E0 *D153c
	E1 *D153c
}
type D153c struct {
	X  int
	E0 *D153a
	E1 *D153a
}
type D154a struct {
	X  int
	E0 *D154b
	E1 *D154b
}
type D154b struct {
	X  int
	E0 *D154c
	E1 *D154c
}
type D154c struct {
	X  int
	E0 *D154a
	E1 *D154b
}
type D155a struct {
	X  int
	E0 *D155b
	E1 *D155b
}
type D155b struct {
	X  int
	E0 *D155c
	E1 *D155c
}
type D155c struct {
	X  int
	E0 *D155a
	E1 *D155c
}
type D156a struct {
	X  int
	E0 *D156b
	E1 *D156b
}
type D156b struct {
	X  int
	E0 *D156c
	E1 *D156c
}
type D156c struct {
	X  int
	E0 *D156b
	E1 *D156a
}
type D157a struct {
	X  int
	E0 *D157b
	E1 *D157b
}
type D157b struct {
	X  int
	E0 *D157c
	E1 *D157c
}
type D157c struct {
	X  int
	E0 *D157b
	E1 *D157b
}
type D158a struct {
	X  int
	E0 *D158b
	E1 *D158b
}
type D158b struct {
	X  int
	E0 *D158c
	E1 *D158c
}
type D158c struct {
	X  int
	E0 *D158b
	E1 *D158c
}
type D159a struct {
	X  int
	E0 *D159b
	E1 *D159b
}
type D159b struct {
	X  int
	E0 *D159c
	E1 *D159c
}
type D159c struct {
	X  int
	E0 *D159c
	E1 *D159a
}
type D160a struct {
	X  int
	E0 *D160b
	E1 *D160b
}
type D160b struct {
	X  int
	E0 *D160c
	E1 *D160c
}
type D160c struct {
	X  int
	E0 *D160c
	E1 *D160b
}
type D161a struct {
	X  int
	E0 *D161b
	E1 *D161b
}
type D161b struct {
	X  int
	E0 *D161c
	E1 *D161c
}
type D161c struct {
	X  int
	E0 *D161c
	E1 *D161c
}
type D162a struct {
	X  int
	E0 *D162b
	E1 *D162c
}
type D162b struct {
	X  int
	E0 *D162a
	E1 *D162a
}
type D162c struct {
	X  int
	E0 *D162a
	E1 *D162a
}
type D163a struct {
	X  int
	E0 *D163b
	E1 *D163c
}
type D163b struct {
	X  int
	E0 *D163a
	E1 *D163a
}
type D163c struct {
	X  int
	E0 *D163a
	E1 *D163b
}
type D164a struct {
	X  int
	E0 *D164b
	E1 *D164c
}
type D164b struct {
	X  int
	E0 *D164a
	E1 *D164a
}
type D164c struct {
	X  int
	E0 *D164a
	E1 *D164c
}
type D165a struct {
	X  int
	E0 *D165b
	E1 *D165c
}
type D165b struct {
	X  int
	E0 *D165a
	E1 *D165a
}
type D165c struct {
	X  int
	E0 *D165b
	E1 *D165a
}
type D166a struct {
	X  int
	E0 *D166b
	E1 *D166c
}
type D166b struct {
	X  int
	E0 *D166a
	E1 *D166a
}
type D166c struct {
	X  int
	E0 *D166b
	E1 *D166b
}
type D167a struct {
	X  int
	E0 *D167b
	E1 *D167c
}
type D167b struct {
	X  int
	E0 *D167a
	E1 *D167a
}
type D167c struct {
	X  int
	E0 *D167b
	E1 *D167c
}
type D168a struct {
	X  int
	E0 *D168b
	E1 *D168c
}
type D168b struct {
	X  int
	E0 *D168a
	E1 *D168a
}
type D168c struct {
	X  int
	E0 *D168c
	E1 *D168a
}
type D169a struct {
	X  int
	E0 *D169b
	E1 *D169c
}
type D169b struct {
	X  int
	E0 *D169a
	E1 *D169a
}
type D169c struct {
	X  int
	E0 *D169c
	E1 *D169b
}
type D170a struct {
	X  int
	E0 *D170b
	E1 *D170c
}
type D170b struct {
	X  int
	E0 *D170a
	E1 *D170a
}
type D170c struct {
	X  int
	E0 *D170c
	E1 *D170c
}
type D171a struct {
	X  int
	E0 *D171b
	E1 *D171c
}
type D171b struct {
	X  int
	E0 *D171a
	E1 *D171b
}
type D171c struct {
	X  int
	E0 *D171a
	E1 *D171a
}
type D172a struct {
	X  int
	E0 *D172b
	E1 *D172c
}
type D172b struct {
	X  int
	E0 *D172a
	E1 *D172b
}
type D172c struct {
	X  int
	E0 *D172a
	E1 *D172b
}
type D173a struct {
	X  int
	E0 *D173b
	E1 *D173c
}
type D173b struct {
	X  int
	E0 *D173a
	E1 *D173b
}
type D173c struct {
	X  int
	E0 *D173a
	E1 *D173c
}
type D174a struct {
	X  int
	E0 *D174b
	E1 *D174c
}
type D174b struct {
	X  int
	E0 *D174a
	E1 *D174b
}
type D174c struct {
	X  int
	E0 *D174b
	E1 *D174a
}
type D175a struct {
	X  int
	E0 *D175b
	E1 *D175c
}
type D175b struct {
	X  int
	E0 *D175a
	E1 *D175b
}
type D175c struct {
	X  int
	E0 *D175b
	E1 *D175b
}
type D176a struct {
	X  int
	E0 *D176b
	E1 *D176c
}
type D176b struct {
	X  int
	E0 *D176a
	E1 *D176b
}
type D176c struct {
	X  int
	E0 *D176b
	E1 *D176c
}
type D177a struct {
	X  int
	E0 *D177b
	E1 *D177c
}
type D177b struct {
	X  int
	E0 *D177a
	E1 *D177b
}
type D177c struct {
	X  int
	E0 *D177c
	E1 *D177a
}
type D178a struct {
	X  int
	E0 *D178b
	E1 *D178c
}
type D178b struct {
	X  int
	E0 *D178a
	E1 *D178b
}
type D178c struct {
	X  int
	E0 *D178c
	E1 *D178b
}
type D179a struct {
	X  int
	E0 *D179b
	E1 *D179c
}
type D179b struct {
	X  int
	E0 *D179a
	E1 *D179b
}
type D179c struct {
	X  int
	E0 *D179c
	E1 *D179c
}
type D180a struct {
	X  int
	E0 *D180b
	E1 *D180c
}
type D180b struct {
	X  int
	E0 *D180a
	E1 *D180c
}
type D180c struct {
	X  int
	E0 *D180a
	E1 *D180a
}
type D181a struct {
	X  int
	E0 *D181b
	E1 *D181c
}
type D181b struct {
	X  int
	E0 *D181a
	E1 *D181c
}
type D181c struct {
	X  int
	E0 *D181a
	E1 *D181b
}
type D182a struct {
	X  int
	E0 *D182b
	E1 *D182c
}
type D182b struct {
	X  int
	E0 *D182a
	E1 *D182c
}
type D182c struct {
	X  int
	E0 *D182a
	E1 *D182c
}
type D183a struct {
	X  int
	E0 *D183b
	E1 *D183c
}
type D183b struct {
	X  int
	E0 *D183a
	E1 *D183c
}
type D183c struct {
	X  int
	E0 *D183b
	E1 *D183a
}
type D184a struct {
	X  int
	E0 *D184b
	E1 *D184c
}
type D184b struct {
	X  int
	E0 *D184a
	E1 *D184c
}
type D184c struct {
	X  int
	E0 *D184b
	E1 *D184b
}
type D185a struct {
	X  int
	E0 *D185b
	E1 *D185c
}
type D185b struct {
	X  int
	E0 *D185a
	E1 *D185c
}
type D185c struct {
	X  int
	E0 *D185b
	E1 *D185c
}
type D186a struct {
	X  int
	E0 *D186b
	E1 *D186c
}
type D186b struct {
	X  int
	E0 *D186a
	E1 *D186c
}
type D186c struct {
	X  int
	E0 *D186c
	E1 *D186a
}
type D187a struct {
	X  int
	E0 *D187b
	E1 *D187c
}
type D187b struct {
	X  int
	E0 *D187a
	E1 *D187c
}
type D187c struct {
	X  int
	E0 *D187c
	E1 *D187b
}
type D188a struct {
	X  int
	E0 *D188b
	E1 *D188c
}
type D188b struct {
	X  int
	E0 *D188a
	E1 *D188c
}
type D188c struct {
	X  int
	E0 *D188c
	E1 *D188c
}
type D189a struct {
	X  int
	E0 *D189b
	E1 *D189c
}
type D189b struct {
	X  int
	E0 *D189b
	E1 *D189b
}
type D189c struct {
	X  int
	E0 *D189a
	E1 *D189a
}
type D190a struct {
	X  int
	E0 *D190b
	E1 *D190c
}
type D190b struct {
	X  int
	E0 *D190b
	E1 *D190b
}
type D190c struct {
	X  int
	E0 *D190a
	E1 *D190b
}
type D191a struct {
	X  int
	E0 *D191b
	E1 *D191c
}
type D191b struct {
	X  int
	E0 *D191b
	E1 *D191b
}
type D191c struct {
	X  int
	E0 *D191a
	E1 *D191c
}
type D192a struct {
	X  int
	E0 *D192b
	E1 *D192c
}
type D192b struct {
	X  int
	E0 *D192b
	E1 *D192b
}
type D192c struct {
	X  int
	E0 *D192b
	E1 *D192a
}
type D193a struct {
	X  int
	E0 *D193b
	E1 *D193c
}
type D193b struct {
	X  int
	E0 *D193b
	E1 *D193b
}
type D193c struct {
	X  int
	E0 *D193b
	E1 *D193b
}
type D194a struct {
	X  int
	E0 *D194b
	E1 *D194c
}
type D194b struct {
	X  int
	E0 *D194b
	E1 *D194b
}
type D194c struct {
	X  int
	E0 *D194b
	E1 *D194c
}
type D195a struct {
	X  int
	E0 *D195b
	E1 *D195c
}
type D195b struct {
	X  int
	E0 *D195b
	E1 *D195b
}
type D195c struct {
	X  int
	E0 *D195c
	E1 *D195a
}
type D196a struct {
	X  int
	E0 *D196b
	E1 *D196c
}
type D196b struct {
	X  int
	E0 *D196b
	E1 *D196b
}
type D196c struct {
	X  int
	E0 *D196c
	E1 *D196b
}
type D197a struct {
	X  int
	E0 *D197b
	E1 *D197c
}
type D197b struct {
	X  int
	E0 *D197b
	E1 *D197b
}
type D197c struct {
	X  int
	E0 *D197c
	E1 *D197c
}
type D198a struct {
	X  int
	E0 *D198b
	E1 *D198c
}
type D198b struct {
	X  int
	E0 *D198b
	E1 *D198c
}
type D198c struct {
	X  int
	E0 *D198a
	E1 *D198a
}
type D199a struct {
	X  int
	E0 *D199b
	E1 *D199c
}
type D199b struct {
	X  int
	E0 *D199b
	E1 *D199c
}
type D199c struct {
	X  int
	E0 *D199a
	E1 *D199b
}
type D200a struct {
	X  int
	E0 *D200b
	E1 *D200c
}
type D200b struct {
	X  int
	E0 *D200b
	E1 *D200c
}
type D200c struct {
	X  int
	E0 *D200a
	E1 *D200c
}
type D201a struct {
	X  int
	E0 *D201b
	E1 *D201c
}
type D201b struct {
	X  int
	E0 *D201b
	E1 *D201c
}
type D201c struct {
	X  int
	E0 *D201b
	E1 *D201a
}
type D202a struct {
	X  int
	E0 *D202b
	E1 *D202c
}
type D202b struct {
	X  int
	E0 *D202b
	E1 *D202c
}
type D202c struct {
	X  int
	E0 *D202b
	E1 *D202b
}
type D203a struct {
	X  int
	E0 *D203b
	E1 *D203c
}
type D203b struct {
	X  int
	E0 *D203b
	E1 *D203c
}
type D203c struct {
	X  int
	E0 *D203b
	E1 *D203c
}
type D204a struct {
	X  int
	E0 *D204b
	E1 *D204c
}
type D204b struct {
	X  int
	E0 *D204b
	E1 *D204c
}
type D204c struct {
	X  int
	E0 *D204c
	E1 *D204a
}
type D205a struct {
	X  int
	E0 *D205b
	E1 *D205c
}
type D205b struct {
	X  int
	E0 *D205b
	E1 *D205c
}
type D205c struct {
	X  int
	E0 *D205c
	E1 *D205b
}
type D206a struct {
	X  int
	E0 *D206b
	E1 *D206c
}
type D206b struct {
	X  int
	E0 *D206b
	E1 *D206c
}
type D206c struct {
	X  int
	E0 *D206c
	E1 *D206c
}
type D207a struct {
	X  int
	E0 *D207b
	E1 *D207c
}
type D207b struct {
	X  int
	E0 *D207c
	E1 *D207c
}
type D207c struct {
	X  int
	E0 *D207a
	E1 *D207a
}
type D208a struct {
	X  int
	E0 *D208b
	E1 *D208c
}
type D208b struct {
	X  int
	E0 *D208c
	E1 *D208c
}
type D208c struct {
	X  int
	E0 *D208a
	E1 *D208b
}
type D209a struct {
	X  int
	E0 *D209b
	E1 *D209c
}
type D209b struct {
	X  int
	E0 *D209c
	E1 *D209c
}
type D209c struct {
	X  int
	E0 *D209a
	E1 *D209c
}
type D210a struct {
	X  int
	E0 *D210b
	E1 *D210c
}
type D210b struct {
	X  int
	E0 *D210c
	E1 *D210c
}
type D210c struct {
	X  int
	E0 *D210b
	E1 *D210a
}
type D211a struct {
	X  int
	E0 *D211b
	E1 *D211c
}
type D211b struct {
	X  int
	E0 *D211c
	E1 *D211c
}
type D211c struct {
	X  int
	E0 *D211b
	E1 *D211b
}
type D212a struct {
	X  int
	E0 *D212b
	E1 *D212c
}
type D212b struct {
	X  int
	E0 *D212c
	E1 *D212c
}
type D212c struct {
	X  int
	E0 *D212b
	E1 *D212c
}
type D213a struct {
	X  int
	E0 *D213b
	E1 *D213c
}
type D213b struct {
	X  int
	E0 *D213c
	E1 *D213c
}
type D213c struct {
	X  int
	E0 *D213c
	E1 *D213a
}
type D214a struct {
	X  int
	E0 *D214b
	E1 *D214c
}
type D214b struct {
	X  int
	E0 *D214c
	E1 *D214c
}
type D214c struct {
	X  int
	E0 *D214c
	E1 *D214b
}
type D215a struct {
	X  int
	E0 *D215b
	E1 *D215c
}
type D215b struct {
	X  int
	E0 *D215c
	E1 *D215c
}
type D215c struct {
	X  int
	E0 *D215c
	E1 *D215c
}
type D216a struct {
	X  int
	E0 *D216c
	E1 *D216c
}
type D216b struct {
	X  int
	E0 *D216a
	E1 *D216a
}
type D216c struct {
	X  int
	E0 *D216a
	E1 *D216a
}
type D217a struct {
	X  int
	E0 *D217c
	E1 *D217c
}
type D217b struct {
	X  int
	E0 *D217a
	E1 *D217a
}
type D217c struct {
	X  int
	E0 *D217a
	E1 *D217b
}
type D218a struct {
	X  int
	E0 *D218c
	E1 *D218c
}
type D218b struct {
	X  int
	E0 *D218a
	E1 *D218a
}
type D218c struct {
	X  int
	E0 *D218a
	E1 *D218c
}
type D219a struct {
	X  int
	E0 *D219c
	E1 *D219c
}
type D219b struct {
	X  int
	E0 *D219a
	E1 *D219a
}
type D219c struct {
	X  int
	E0 *D219b
	E1 *D219a
}
type D220a struct {
	X  int
	E0 *D220c
	E1 *D220c
}
type D220b struct {
	X  int
	E0 *D220a
	E1 *D220a
}
type D220c struct {
	X  int
	E0 *D220b
	E1 *D220b
}
type D221a struct {
	X  int
	E0 *D221c
	E1 *D221c
}
type D221b struct {
	X  int
	E0 *D221a
	E1 *D221a
}
type D221c struct {
	X  int
	E0 *D221b
	E1 *D221c
}
type D222a struct {
	X  int
	E0 *D222c
	E1 *D222c
}
type D222b struct {
	X  int
	E0 *D222a
	E1 *D222a
}
type D222c struct {
	X  int
	E0 *D222c
	E1 *D222a
}
type D223a struct {
	X  int
	E0 *D223c
	E1 *D223c
}
type D223b struct {
	X  int
	E0 *D223a
	E1 *D223a
}
type D223c struct {
	X  int
	E0 *D223c
	E1 *D223b
}
type D224a struct {
	X  int
	E0 *D224c
	E1 *D224c
}
type D224b struct {
	X  int
	E0 *D224a
	E1 *D224a
}
type D224c struct {
	X  int
	E0 *D224c
	E1 *D224c
}
type D225a struct {
	X  int
	E0 *D225c
	E1 *D225c
}
type D225b struct {
	X  int
	E0 *D225a
	E1 *D225b
}
type D225c struct {
	X  int
	E0 *D225a
	E1 *D225a
}
type D226a struct {
	X  int
	E0 *D226c
	E1 *D226c
}
type D226b struct {
	X  int
	E0 *D226a
	E1 *D226b
}
type D226c struct {
	X  int
	E0 *D226a
	E1 *D226b
}
type D227a struct {
	X  int
	E0 *D227c
	E1 *D227c
}
type D227b struct {
	X  int
	E0 *D227a
	E1 *D227b
}
type D227c struct {
	X  int
	E0 *D227a
	E1 *D227c
}
type D228a struct {
	X  int
	E0 *D228c
	E1 *D228c
}
type D228b struct {
	X  int
	E0 *D228a
	E1 *D228b
}
type D228c struct {
	X  int
	E0 *D228b
	E1 *D228a
}
type D229a struct {
	X  int
	E0 *D229c
	E1 *D229c
}
type D229b struct {
	X  int
	E0 *D229a
	E1 *D229b
}
type D229c struct {
	X  int
	E0 *D229b
	E1 *D229b
}
type D230a struct {
	X  int
	E0 *D230c
	E1 *D230c
}
type D230b struct {
	X  int
	E0 *D230a
	E1 *D230b
}
type D230c struct {
	X  int
	E0 *D230b
	E1 *D230c
}
type D231a struct {
	X  int
	E0 *D231c
	E1 *D231c
}
type D231b struct {
	X  int
	E0 *D231a
	E1 *D231b
}
type D231c struct {
	X  int
	E0 *D231c
	E1 *D231a
}
type D232a struct {
	X  int
	E0 *D232c
	E1 *D232c
}
type D232b struct {
	X  int
	E0 *D232a
	E1 *D232b
}
type D232c struct {
	X  int
	E0 *D232c
	E1 *D232b
}
type D233a struct {
	X  int
	E0 *D233c
	E1 *D233c
}
type D233b struct {
	X  int
	E0 *D233a
	E1 *D233b
}
type D233c struct {
	X  int
	E0 *D233c
	E1 *D233c
}
type D234a struct {
	X  int
	E0 *D234c
	E1 *D234c
}
type D234b struct {
	X  int
	E0 *D234a
	E1 *D234c
}
type D234c struct {
	X  int
	E0 *D234a
	E1 *D234a
}
type D235a struct {
	X  int
	E0 *D235c
	E1 *D235c
}
type D235b struct {
	X  int
	E0 *D235a
	E1 *D235c
}
type D235c struct {
	X  int
	E0 *D235a
	E1 *D235b
}
type D236a struct {
	X  int
	E0 *D236c
	E1 *D236c
}
type D236b struct {
	X  int
	E0 *D236a
	E1 *D236c
}
type D236c struct {
	X  int
	E0 *D236a
	E1 *D236c
}
type D237a struct {
	X  int
	E0 *D237c
	E1 *D237c
}
type D237b struct {
	X  int
	E0 *D237a
	E1 *D237c
}
type D237c struct {
	X  int
	E0 *D237b
	E1 *D237a
}
type D238a struct {
	X  int
	E0 *D238c
	E1 *D238c
}
type D238b struct {
	X  int
	E0 *D238a
	E1 *D238c
}
type D238c struct {
	X  int
	E0 *D238b
	E1 *D238b
}
type D239a struct {
	X  int
	E0 *D239c
	E1 *D239c
}
type D239b struct {
	X  int
	E0 *D239a
	E1 *D239c
}
type D239c struct {
	X  int
	E0 *D239b
	E1 *D239c
}
type D240a struct {
	X  int
	E0 *D240c
	E1 *D240c
}
type D240b struct {
	X  int
	E0 *D240a
	E1 *D240c
}
type D240c struct {
	X  int
	E0 *D240c
	E1 *D240a
}
type D241a struct {
	X  int
	E0 *D241c
	E1 *D241c
}
type D241b struct {
	X  int
	E0 *D241a
	E1 *D241c
}
type D241c struct {
	X  int
	E0 *D241c
	E1 *D241b
}
type D242a struct {
	X  int
	E0 *D242c
	E1 *D242c
}
type D242b struct {
	X  int
	E0 *D242a
	E1 *D242c
}
type D242c struct {
	X  int
	E0 *D242c
	E1 *D242c
}
type D243a struct {
	X  int
	E0 *D243c
	E1 *D243c
}
type D243b struct {
	X  int
	E0 *D243b
	E1 *D243b
}
type D243c struct {
	X  int
	E0 *D243a
	E1 *D243a
}
type D244a struct {
	X  int
	E0 *D244c
	E1 *D244c
}
type D244b struct {
	X  int
	E0 *D244b
	E1 *D244b
}
type D244c struct {
	X  int
	E0 *D244a
	E1 *D244b
}
type D245a struct {
	X  int
	E0 *D245c
	E1 *D245c
}
type D245b struct {
	X  int
	E0 *D245b
	E1 *D245b
}
type D245c struct {
	X  int
	E0 *D245a
	E1 *D245c
}
type D246a struct {
	X  int
	E0 *D246c
	E1 *D246c
}
type D246b struct {
	X  int
	E0 *D246b
	E1 *D246b
}
type D246c struct {
	X  int
	E0 *D246b
	E1 *D246a
}
type D247a struct {
	X  int
	E0 *D247c
	E1 *D247c
}
type D247b struct {
	X  int
	E0 *D247b
	E1 *D247b
}
type D247c struct {
	X  int
	E0 *D247b
	E1 *D247b
}
type D248a struct {
	X  int
	E0 *D248c
	E1 *D248c
}
type D248b struct {
	X  int
	E0 *D248b
	E1 *D248b
}
type D248c struct {
	X  int
	E0 *D248b
	E1 *D248c
}
type D249a struct {
	X  int
	E0 *D249c
	E1 *D249c
}
type D249b struct {
	X  int
	E0 *D249b
	E1 *D249b
}
type D249c struct {
	X  int
	E0 *D249c
	E1 *D249a
}
type D250a struct {
	X  int
	E0 *D250c
	E1 *D250c
}
type D250b struct {
	X  int
	E0 *D250b
	E1 *D250b
}
type D250c struct {
	X  int
	E0 *D250c
	E1 *D250b
}
type D251a struct {
	X  int
	E0 *D251c
	E1 *D251c
}
type D251b struct {
	X  int
	E0 *D251b
	E1 *D251b
}
type D251c struct {
	X  int
	E0 *D251c
	E1 *D251c
}
type D252a struct {
	X  int
	E0 *D252c
	E1 *D252c
}
type D252b struct {
	X  int
	E0 *D252b
	E1 *D252c
}
type D252c struct {
	X  int
	E0 *D252a
	E1 *D252a
}
type D253a struct {
	X  int
	E0 *D253c
	E1 *D253c
}
type D253b struct {
	X  int
	E0 *D253b
	E1 *D253c
}
type D253c struct {
	X  int
	E0 *D253a
	E1 *D253b
}
type D254a struct {
	X  int
	E0 *D254c
	E1 *D254c
}
type D254b struct {
	X  int
	E0 *D254b
	E1 *D254c
}
type D254c struct {
	X  int
	E0 *D254a
	E1 *D254c
}
type D255a struct {
	X  int
	E0 *D255c
	E1 *D255c
}
type D255b struct {
	X  int
	E0 *D255b
	E1 *D255c
}
type D255c struct {
	X  int
	E0 *D255b
	E1 *D255a
}
type D256a struct {
	X  int
	E0 *D256c
	E1 *D256c
}
type D256b struct {
	X  int
	E0 *D256b
	E1 *D256c
}
type D256c struct {
	X  int
	E0 *D256b
	E1 *D256b
}
type D257a struct {
	X  int
	E0 *D257c
	E1 *D257c
}
type D257b struct {
	X  int
	E0 *D257b
	E1 *D257c
}
type D257c struct {
	X  int
	E0 *D257b
	E1 *D257c
}
type D258a struct {
	X  int
	E0 *D258c
	E1 *D258c
}
type D258b struct {
	X  int
	E0 *D258b
	E1 *D258c
}
type D258c struct {
	X  int
	E0 *D258c
	E1 *D258a
}
type D259a struct {
	X  int
	E0 *D259c
	E1 *D259c
}
type D259b struct {
	X  int
	E0 *D259b
	E1 *D259c
}
type D259c struct {
	X  int
	E0 *D259c
	E1 *D259b
}
type D260a struct {
	X  int
	E0 *D260c
	E1 *D260c
}
type D260b struct {
	X  int
	E0 *D260b
	E1 *D260c
}
type D260c struct {
	X  int
	E0 *D260c
	E1 *D260c
}
type D261a struct {
	X  int
	E0 *D261c
	E1 *D261c
}
type D261b struct {
	X  int
	E0 *D261c
	E1 *D261c
}
type D261c struct {
	X  int
	E0 *D261a
	E1 *D261a
}
type D262a struct {
	X  int
	E0 *D262c
	E1 *D262c
}
type D262b struct {
	X  int
	E0 *D262c
	E1 *D262c
}
type D262c struct {
	X  int
	E0 *D262a
	E1 *D262b
}
type D263a struct {
	X  int
	E0 *D263c
	E1 *D263c
}
type D263b struct {
	X  int
	E0 *D263c
	E1 *D263c
}
type D263c struct {
	X  int
	E0 *D263a
	E1 *D263c
}
type D264a struct {
	X  int
	E0 *D264c
	E1 *D264c
}
type D264b struct {
	X  int
	E0 *D264c
	E1 *D264c
}
type D264c struct {
	X  int
	E0 *D264b
	E1 *D264a
}
type D265a struct {
	X  int
	E0 *D265c
	E1 *D265c
}
type D265b struct {
	X  int
	E0 *D265c
	E1 *D265c
}
type D265c struct {
	X  int
	E0 *D265b
	E1 *D265b
}
type D266a struct {
	X  int
	E0 *D266c
	E1 *D266c
}
type D266b struct {
	X  int
	E0 *D266c
	E1 *D266c
}
type D266c struct {
	X  int
	E0 *D266b
	E1 *D266c
}
type D267a struct {
	X  int
	E0 *D267c
	E1 *D267c
}
type D267b struct {
	X  int
	E0 *D267c
	E1 *D267c
}
type D267c struct {
	X  int
	E0 *D267c
	E1 *D267a
}
type D268a struct {
	X  int
	E0 *D268c
	E1 *D268c
}
type D268b struct {
	X  int
	E0 *D268c
	E1 *D268c
}
type D268c struct {
	X  int
	E0 *D268c
	E1 *D268b
}
type D269a struct {
	X  int
	E0 *D269c
	E1 *D269c
}
type D269b struct {
	X  int
	E0 *D269c
	E1 *D269c
}
type D269c struct {
	X  int
	E0 *D269c
	E1 *D269c
}

// All lists every graph by its nodes.
var All = [][]interface{}{
	{A0{}},
	{A1{}},
	{A2{}},
	{A3{}},
	{A4{}},
	{A5{}},
	{A6{}},
	{A7{}},
	{A8{}},
	{A9{}},
	{A10{}},
	{A11{}},
	{A12{}},
	{A13{}},
	{A14{}},
	{A15{}},
	{A16{}},
	{A17{}},
	{A18{}},
	{A19{}},
	{A20{}},
	{A21{}},
	{A22{}},
	{A23{}},
	{A24{}},
	{A25{}},
	{A26{}},
	{A27{}},
	{A28{}},
	{A29{}},
	{A30{}},
	{A31{}},
	{A32{}},
	{A33{}},
	{A34{}},
	{A35{}},
	{A36{}},
	{A37{}},
	{A38{}},
	{A39{}},
	{A40{}},
	{A41{}},
	{A42{}},
	{A43{}},
	{A44{}},
	{A45{}},
	{A46{}},
	{A47{}},
	{B0a{}, B0b{}},
	{B1a{}, B1b{}},
	{B2a{}, B2b{}},
	{B3a{}, B3b{}},
	{B4a{}, B4b{}},
	{B5a{}, B5b{}},
	{B6a{}, B6b{}},
	{B7a{}, B7b{}},
	{B8a{}, B8b{}},
	{B9a{}, B9b{}},
	{B10a{}, B10b{}},
	{B11a{}, B11b{}},
	{B12a{}, B12b{}},
	{B13a{}, B13b{}},
	{B14a{}, B14b{}},
	{B15a{}, B15b{}},
	{B16a{}, B16b{}},
	{B17a{}, B17b{}},
	{B18a{}, B18b{}},
	{B19a{}, B19b{}},
	{B20a{}, B20b{}},
	{B21a{}, B21b{}},
	{B22a{}, B22b{}},
	{B23a{}, B23b{}},
	{B24a{}, B24b{}},
	{B25a{}, B25b{}},
	{B26a{}, B26b{}},
	{B27a{}, B27b{}},
	{B28a{}, B28b{}},
	{B29a{}, B29b{}},
	{B30a{}, B30b{}},
	{B31a{}, B31b{}},
	{B32a{}, B32b{}},
	{B33a{}, B33b{}},
	{B34a{}, B34b{}},
	{B35a{}, B35b{}},
	{B36a{}, B36b{}},
	{B37a{}, B37b{}},
	{B38a{}, B38b{}},
	{B39a{}, B39b{}},
	{B40a{}, B40b{}},
	{B41a{}, B41b{}},
	{B42a{}, B42b{}},
	{B43a{}, B43b{}},
	{B44a{}, B44b{}},
	{B45a{}, B45b{}},
	{B46a{}, B46b{}},
	{B47a{}, B47b{}},
	{B48a{}, B48b{}},
	{B49a{}, B49b{}},
	{B50a{}, B50b{}},
	{B51a{}, B51b{}},
	{B52a{}, B52b{}},
	{B53a{}, B53b{}},
	{B54a{}, B54b{}},
	{B55a{}, B55b{}},
	{B56a{}, B56b{}},
	{B57a{}, B57b{}},
	{B58a{}, B58b{}},
	{B59a{}, B59b{}},
	{B60a{}, B60b{}},
	{B61a{}, B61b{}},
	{B62a{}, B62b{}},
	{B63a{}, B63b{}},
	{B64a{}, B64b{}},
	{B65a{}, B65b{}},
	{B66a{}, B66b{}},
	{B67a{}, B67b{}},
	{B68a{}, B68b{}},
	{B69a{}, B69b{}},
	{B70a{}, B70b{}},
	{B71a{}, B71b{}},
	{B72a{}, B72b{}},
	{B73a{}, B73b{}},
	{B74a{}, B74b{}},
	{B75a{}, B75b{}},
	{B76a{}, B76b{}},
	{B77a{}, B77b{}},
	{B78a{}, B78b{}},
	{B79a{}, B79b{}},
	{B80a{}, B80b{}},
	{B81a{}, B81b{}},
	{B82a{}, B82b{}},
	{B83a{}, B83b{}},
	{B84a{}, B84b{}},
	{B85a{}, B85b{}},
	{B86a{}, B86b{}},
	{B87a{}, B87b{}},
	{B88a{}, B88b{}},
	{B89a{}, B89b{}},
	{B90a{}, B90b{}},
	{B91a{}, B91b{}},
	{B92a{}, B92b{}},
	{B93a{}, B93b{}},
	{B94a{}, B94b{}},
	{B95a{}, B95b{}},
	{B96a{}, B96b{}},
	{B97a{}, B97b{}},
	{B98a{}, B98b{}},
	{B99a{}, B99b{}},
	{B100a{}, B100b{}},
	{B101a{}, B101b{}},
	{B102a{}, B102b{}},
	{B103a{}, B103b{}},
	{B104a{}, B104b{}},
	{B105a{}, B105b{}},
	{B106a{}, B106b{}},
	{B107a{}, B107b{}},
	{B108a{}, B108b{}},
	{B109a{}, B109b{}},
	{B110a{}, B110b{}},
	{B111a{}, B111b{}},
	{B112a{}, B112b{}},
	{B113a{}, B113b{}},
	{B114a{}, B114b{}},
	{B115a{}, B115b{}},
	{B116a{}, B116b{}},
	{B117a{}, B117b{}},
	{B118a{}, B118b{}},
	{B119a{}, B119b{}},
	{B120a{}, B120b{}},
	{B121a{}, B121b{}},
	{B122a{}, B122b{}},
	{B123a{}, B123b{}},
	{B124a{}, B124b{}},
	{B125a{}, B125b{}},
	{B126a{}, B126b{}},
	{B127a{}, B127b{}},
	{B128a{}, B128b{}},
	{B129a{}, B129b{}},
	{B130a{}, B130b{}},
	{B131a{}, B131b{}},
	{B132a{}, B132b{}},
	{B133a{}, B133b{}},
	{B134a{}, B134b{}},
	{B135a{}, B135b{}},
	{B136a{}, B136b{}},
	{B137a{}, B137b{}},
	{B138a{}, B138b{}},
	{B139a{}, B139b{}},
	{B140a{}, B140b{}},
	{B141a{}, B141b{}},
	{B142a{}, B142b{}},
	{B143a{}, B143b{}},
	{B144a{}, B144b{}},
	{B145a{}, B145b{}},
	{B146a{}, B146b{}},
	{B147a{}, B147b{}},
	{B148a{}, B148b{}},
	{B149a{}, B149b{}},
	{B150a{}, B150b{}},
	{B151a{}, B151b{}},
	{B152a{}, B152b{}},
	{B153a{}, B153b{}},
	{B154a{}, B154b{}},
	{B155a{}, B155b{}},
	{B156a{}, B156b{}},
	{B157a{}, B157b{}},
	{B158a{}, B158b{}},
	{B159a{}, B159b{}},
	{B160a{}, B160b{}},
	{B161a{}, B161b{}},
	{B162a{}, B162b{}},
	{B163a{}, B163b{}},
	{B164a{}, B164b{}},
	{B165a{}, B165b{}},
	{B166a{}, B166b{}},
	{B167a{}, B167b{}},
	{B168a{}, B168b{}},
	{B169a{}, B169b{}},
	{B170a{}, B170b{}},
	{B171a{}, B171b{}},
	{B172a{}, B172b{}},
	{B173a{}, B173b{}},
	{B174a{}, B174b{}},
	{B175a{}, B175b{}},
	{B176a{}, B176b{}},
	{B177a{}, B177b{}},
	{B178a{}, B178b{}},
	{B179a{}, B179b{}},
	{B180a{}, B180b{}},
	{B181a{}, B181b{}},
	{B182a{}, B182b{}},
	{B183a{}, B183b{}},
	{B184a{}, B184b{}},
	{B185a{}, B185b{}},
	{B186a{}, B186b{}},
	{B187a{}, B187b{}},
	{B188a{}, B188b{}},
	{B189a{}, B189b{}},
	{B190a{}, B190b{}},
	{B191a{}, B191b{}},
	{B192a{}, B192b{}},
	{B193a{}, B193b{}},
	{B194a{}, B194b{}},
	{B195a{}, B195b{}},
	{B196a{}, B196b{}},
	{B197a{}, B197b{}},
	{B198a{}, B198b{}},
	{B199a{}, B199b{}},
	{B200a{}, B200b{}},
	{B201a{}, B201b{}},
	{B202a{}, B202b{}},
	{B203a{}, B203b{}},
	{B204a{}, B204b{}},
	{B205a{}, B205b{}},
	{B206a{}, B206b{}},
	{B207a{}, B207b{}},
	{B208a{}, B208b{}},
	{B209a{}, B209b{}},
	{B210a{}, B210b{}},
	{B211a{}, B211b{}},
	{B212a{}, B212b{}},
	{B213a{}, B213b{}},
	{B214a{}, B214b{}},
	{B215a{}, B215b{}},
	{B216a{}, B216b{}},
	{B217a{}, B217b{}},
	{B218a{}, B218b{}},
	{B219a{}, B219b{}},
	{B220a{}, B220b{}},
	{B221a{}, B221b{}},
	{B222a{}, B222b{}},
	{B223a{}, B223b{}},
	{B224a{}, B224b{}},
	{B225a{}, B225b{}},
	{B226a{}, B226b{}},
	{B227a{}, B227b{}},
	{B228a{}, B228b{}},
	{B229a{}, B229b{}},
	{B230a{}, B230b{}},
	{B231a{}, B231b{}},
	{B232a{}, B232b{}},
	{B233a{}, B233b{}},
	{B234a{}, B234b{}},
	{B235a{}, B235b{}},
	{B236a{}, B236b{}},
	{B237a{}, B237b{}},
	{B238a{}, B238b{}},
	{B239a{}, B239b{}},
	{B240a{}, B240b{}},
	{B241a{}, B241b{}},
	{B242a{}, B242b{}},
	{B243a{}, B243b{}},
	{B244a{}, B244b{}},
	{B245a{}, B245b{}},
	{B246a{}, B246b{}},
	{B247a{}, B247b{}},
	{B248a{}, B248b{}},
	{B249a{}, B249b{}},
	{B250a{}, B250b{}},
	{B251a{}, B251b{}},
	{B252a{}, B252b{}},
	{B253a{}, B253b{}},
	{B254a{}, B254b{}},
	{B255a{}, B255b{}},
	{B256a{}, B256b{}},
	{B257a{}, B257b{}},
	{B258a{}, B258b{}},
	{B259a{}, B259b{}},
	{B260a{}, B260b{}},
	{B261a{}, B261b{}},
	{B262a{}, B262b{}},
	{B263a{}, B263b{}},
	{B264a{}, B264b{}},
	{B265a{}, B265b{}},
	{B266a{}, B266b{}},
	{B267a{}, B267b{}},
	{B268a{}, B268b{}},
	{B269a{}, B269b{}},
	{B270a{}, B270b{}},
	{B271a{}, B271b{}},
	{B272a{}, B272b{}},
	{B273a{}, B273b{}},
	{B274a{}, B274b{}},
	{B275a{}, B275b{}},
	{B276a{}, B276b{}},
	{B277a{}, B277b{}},
	{B278a{}, B278b{}},
	{B279a{}, B279b{}},
	{B280a{}, B280b{}},
	{B281a{}, B281b{}},
	{B282a{}, B282b{}},
	{B283a{}, B283b{}},
	{B284a{}, B284b{}},
	{B285a{}, B285b{}},
	{B286a{}, B286b{}},
	{B287a{}, B287b{}},
	{B288a{}, B288b{}},
	{B289a{}, B289b{}},
	{B290a{}, B290b{}},
	{B291a{}, B291b{}},
	{B292a{}, B292b{}},
	{B293a{}, B293b{}},
	{B294a{}, B294b{}},
	{B295a{}, B295b{}},
	{B296a{}, B296b{}},
	{B297a{}, B297b{}},
	{B298a{}, B298b{}},
	{B299a{}, B299b{}},
	{B300a{}, B300b{}},
	{B301a{}, B301b{}},
	{B302a{}, B302b{}},
	{B303a{}, B303b{}},
	{B304a{}, B304b{}},
	{B305a{}, B305b{}},
	{B306a{}, B306b{}},
	{B307a{}, B307b{}},
	{B308a{}, B308b{}},
	{B309a{}, B309b{}},
	{B310a{}, B310b{}},
	{B311a{}, B311b{}},
	{B312a{}, B312b{}},
	{B313a{}, B313b{}},
	{B314a{}, B314b{}},
	{B315a{}, B315b{}},
	{B316a{}, B316b{}},
	{B317a{}, B317b{}},
	{B318a{}, B318b{}},
	{B319a{}, B319b{}},
	{B320a{}, B320b{}},
	{B321a{}, B321b{}},
	{B322a{}, B322b{}},
	{B323a{}, B323b{}},
	{B324a{}, B324b{}},
	{B325a{}, B325b{}},
	{B326a{}, B326b{}},
	{B327a{}, B327b{}},
	{B328a{}, B328b{}},
	{B329a{}, B329b{}},
	{B330a{}, B330b{}},
	{B331a{}, B331b{}},
	{B332a{}, B332b{}},
	{B333a{}, B333b{}},
	{B334a{}, B334b{}},
	{B335a{}, B335b{}},
	{B336a{}, B336b{}},
	{B337a{}, B337b{}},
	{B338a{}, B338b{}},
	{B339a{}, B339b{}},
	{B340a{}, B340b{}},
	{B341a{}, B341b{}},
	{B342a{}, B342b{}},
	{B343a{}, B343b{}},
	{B344a{}, B344b{}},
	{B345a{}, B345b{}},
	{B346a{}, B346b{}},
	{B347a{}, B347b{}},
	{B348a{}, B348b{}},
	{B349a{}, B349b{}},
	{B350a{}, B350b{}},
	{B351a{}, B351b{}},
	{B352a{}, B352b{}},
	{B353a{}, B353b{}},
	{B354a{}, B354b{}},
	{B355a{}, B355b{}},
	{B356a{}, B356b{}},
	{B357a{}, B357b{}},
	{B358a{}, B358b{}},
	{B359a{}, B359b{}},
	{B360a{}, B360b{}},
	{B361a{}, B361b{}},
	{B362a{}, B362b{}},
	{B363a{}, B363b{}},
	{B364a{}, B364b{}},
	{B365a{}, B365b{}},
	{B366a{}, B366b{}},
	{B367a{}, B367b{}},
	{B368a{}, B368b{}},
	{B369a{}, B369b{}},
	{B370a{}, B370b{}},
	{B371a{}, B371b{}},
	{B372a{}, B372b{}},
	{B373a{}, B373b{}},
	{B374a{}, B374b{}},
	{B375a{}, B375b{}},
	{B376a{}, B376b{}},
	{B377a{}, B377b{}},
	{B378a{}, B378b{}},
	{B379a{}, B379b{}},
	{B380a{}, B380b{}},
	{B381a{}, B381b{}},
	{B382a{}, B382b{}},
	{B383a{}, B383b{}},
	{B384a{}, B384b{}},
	{B385a{}, B385b{}},
	{B386a{}, B386b{}},
	{B387a{}, B387b{}},
	{B388a{}, B388b{}},
	{B389a{}, B389b{}},
	{B390a{}, B390b{}},
	{B391a{}, B391b{}},
	{B392a{}, B392b{}},
	{B393a{}, B393b{}},
	{B394a{}, B394b{}},
	{B395a{}, B395b{}},
	{B396a{}, B396b{}},
	{B397a{}, B397b{}},
	{B398a{}, B398b{}},
	{B399a{}, B399b{}},
	{C0a{}, C0b{}},
	{C1a{}, C1b{}},
	{C2a{}, C2b{}},
	{C3a{}, C3b{}},
	{C4a{}, C4b{}},
	{C5a{}, C5b{}},
	{C6a{}, C6b{}},
	{C7a{}, C7b{}},
	{C8a{}, C8b{}},
	{C9a{}, C9b{}},
	{C10a{}, C10b{}},
	{C11a{}, C11b{}},
	{C12a{}, C12b{}},
	{C13a{}, C13b{}},
	{C14a{}, C14b{}},
	{C15a{}, C15b{}},
	{C16a{}, C16b{}},
	{C17a{}, C17b{}},
	{C18a{}, C18b{}},
	{C19a{}, C19b{}},
	{C20a{}, C20b{}},
	{C21a{}, C21b{}},
	{C22a{}, C22b{}},
	{C23a{}, C23b{}},
	{C24a{}, C24b{}},
	{C25a{}, C25b{}},
	{C26a{}, C26b{}},
	{C27a{}, C27b{}},
	{C28a{}, C28b{}},
	{C29a{}, C29b{}},
	{C30a{}, C30b{}},
	{C31a{}, C31b{}},
	{C32a{}, C32b{}},
	{C33a{}, C33b{}},
	{C34a{}, C34b{}},
	{C35a{}, C35b{}},
	{C36a{}, C36b{}},
	{C37a{}, C37b{}},
	{C38a{}, C38b{}},
	{C39a{}, C39b{}},
	{C40a{}, C40b{}},
	{C41a{}, C41b{}},
	{C42a{}, C42b{}},
	{C43a{}, C43b{}},
	{C44a{}, C44b{}},
	{C45a{}, C45b{}},
	{C46a{}, C46b{}},
	{C47a{}, C47b{}},
	{C48a{}, C48b{}},
	{C49a{}, C49b{}},
	{C50a{}, C50b{}},
	{C51a{}, C51b{}},
	{C52a{}, C52b{}},
	{C53a{}, C53b{}},
	{C54a{}, C54b{}},
	{C55a{}, C55b{}},
	{C56a{}, C56b{}},
	{C57a{}, C57b{}},
	{C58a{}, C58b{}},
	{C59a{}, C59b{}},
	{C60a{}, C60b{}},
	{C61a{}, C61b{}},
	{C62a{}, C62b{}},
	{C63a{}, C63b{}},
	{C64a{}, C64b{}},
	{C65a{}, C65b{}},
	{C66a{}, C66b{}},
	{C67a{}, C67b{}},
	{C68a{}, C68b{}},
	{C69a{}, C69b{}},
	{C70a{}, C70b{}},
	{C71a{}, C71b{}},
	{C72a{}, C72b{}},
	{C73a{}, C73b{}},
	{C74a{}, C74b{}},
	{C75a{}, C75b{}},
	{C76a{}, C76b{}},
	{C77a{}, C77b{}},
	{C78a{}, C78b{}},
	{C79a{}, C79b{}},
	{C80a{}, C80b{}},
	{C81a{}, C81b{}},
	{C82a{}, C82b{}},
	{C83a{}, C83b{}},
	{C84a{}, C84b{}},
	{C85a{}, C85b{}},
	{C86a{}, C86b{}},
	{C87a{}, C87b{}},
	{C88a{}, C88b{}},
	{C89a{}, C89b{}},
	{C90a{}, C90b{}},
	{C91a{}, C91b{}},
	{C92a{}, C92b{}},
	{C93a{}, C93b{}},
	{C94a{}, C94b{}},
	{C95a{}, C95b{}},
	{C96a{}, C96b{}},
	{C97a{}, C97b{}},
	{C98a{}, C98b{}},
	{C99a{}, C99b{}},
	{C100a{}, C100b{}},
	{C101a{}, C101b{}},
	{C102a{}, C102b{}},
	{C103a{}, C103b{}},
	{C104a{}, C104b{}},
	{C105a{}, C105b{}},
	{C106a{}, C106b{}},
	{C107a{}, C107b{}},
	{C108a{}, C108b{}},
	{C109a{}, C109b{}},
	{C110a{}, C110b{}},
	{C111a{}, C111b{}},
	{C112a{}, C112b{}},
	{C113a{}, C113b{}},
	{C114a{}, C114b{}},
	{C115a{}, C115b{}},
	{C116a{}, C116b{}},
	{C117a{}, C117b{}},
	{C118a{}, C118b{}},
	{C119a{}, C119b{}},
	{C120a{}, C120b{}},
	{C121a{}, C121b{}},
	{C122a{}, C122b{}},
	{C123a{}, C123b{}},
	{C124a{}, C124b{}},
	{C125a{}, C125b{}},
	{C126a{}, C126b{}},
	{C127a{}, C127b{}},
	{C128a{}, C128b{}},
	{C129a{}, C129b{}},
	{C130a{}, C130b{}},
	{C131a{}, C131b{}},
	{C132a{}, C132b{}},
	{C133a{}, C133b{}},
	{C134a{}, C134b{}},
	{C135a{}, C135b{}},
	{C136a{}, C136b{}},
	{C137a{}, C137b{}},
	{C138a{}, C138b{}},
	{C139a{}, C139b{}},
	{C140a{}, C140b{}},
	{C141a{}, C141b{}},
	{C142a{}, C142b{}},
	{C143a{}, C143b{}},
	{C144a{}, C144b{}},
	{C145a{}, C145b{}},
	{C146a{}, C146b{}},
	{C147a{}, C147b{}},
	{C148a{}, C148b{}},
	{C149a{}, C149b{}},
	{D0a{}, D0b{}, D0c{}},
	{D1a{}, D1b{}, D1c{}},
	{D2a{}, D2b{}, D2c{}},
	{D3a{}, D3b{}, D3c{}},
	{D4a{}, D4b{}, D4c{}},
	{D5a{}, D5b{}, D5c{}},
	{D6a{}, D6b{}, D6c{}},
	{D7a{}, D7b{}, D7c{}},
	{D8a{}, D8b{}, D8c{}},
	{D9a{}, D9b{}, D9c{}},
	{D10a{}, D10b{}, D10c{}},
	{D11a{}, D11b{}, D11c{}},
	{D12a{}, D12b{}, D12c{}},
	{D13a{}, D13b{}, D13c{}},
	{D14a{}, D14b{}, D14c{}},
	{D15a{}, D15b{}, D15c{}},
	{D16a{}, D16b{}, D16c{}},
	{D17a{}, D17b{}, D17c{}},
	{D18a{}, D18b{}, D18c{}},
	{D19a{}, D19b{}, D19c{}},
	{D20a{}, D20b{}, D20c{}},
	{D21a{}, D21b{}, D21c{}},
	{D22a{}, D22b{}, D22c{}},
	{D23a{}, D23b{}, D23c{}},
	{D24a{}, D24b{}, D24c{}},
	{D25a{}, D25b{}, D25c{}},
	{D26a{}, D26b{}, D26c{}},
	{D27a{}, D27b{}, D27c{}},
	{D28a{}, D28b{}, D28c{}},
	{D29a{}, D29b{}, D29c{}},
	{D30a{}, D30b{}, D30c{}},
	{D31a{}, D31b{}, D31c{}},
	{D32a{}, D32b{}, D32c{}},
	{D33a{}, D33b{}, D33c{}},
	{D34a{}, D34b{}, D34c{}},
	{D35a{}, D35b{}, D35c{}},
	{D36a{}, D36b{}, D36c{}},
	{D37a{}, D37b{}, D37c{}},
	{D38a{}, D38b{}, D38c{}},
	{D39a{}, D39b{}, D39c{}},
	{D40a{}, D40b{}, D40c{}},
	{D41a{}, D41b{}, D41c{}},
	{D42a{}, D42b{}, D42c{}},
	{D43a{}, D43b{}, D43c{}},
	{D44a{}, D44b{}, D44c{}},
	{D45a{}, D45b{}, D45c{}},
	{D46a{}, D46b{}, D46c{}},
	{D47a{}, D47b{}, D47c{}},
	{D48a{}, D48b{}, D48c{}},
	{D49a{}, D49b{}, D49c{}},
	{D50a{}, D50b{}, D50c{}},
	{D51a{}, D51b{}, D51c{}},
	{D52a{}, D52b{}, D52c{}},
	{D53a{}, D53b{}, D53c{}},
	{D54a{}, D54b{}, D54c{}},
	{D55a{}, D55b{}, D55c{}},
	{D56a{}, D56b{}, D56c{}},
	{D57a{}, D57b{}, D57c{}},
	{D58a{}, D58b{}, D58c{}},
	{D59a{}, D59b{}, D59c{}},
	{D60a{}, D60b{}, D60c{}},
	{D61a{}, D61b{}, D61c{}},
	{D62a{}, D62b{}, D62c{}},
	{D63a{}, D63b{}, D63c{}},
	{D64a{}, D64b{}, D64c{}},
	{D65a{}, D65b{}, D65c{}},
	{D66a{}, D66b{}, D66c{}},
	{D67a{}, D67b{}, D67c{}},
	{D68a{}, D68b{}, D68c{}},
	{D69a{}, D69b{}, D69c{}},
	{D70a{}, D70b{}, D70c{}},
	{D71a{}, D71b{}, D71c{}},
	{D72a{}, D72b{}, D72c{}},
	{D73a{}, D73b{}, D73c{}},
	{D74a{}, D74b{}, D74c{}},
	{D75a{}, D75b{}, D75c{}},
	{D76a{}, D76b{}, D76c{}},
	{D77a{}, D77b{}, D77c{}},
	{D78a{}, D78b{}, D78c{}},
	{D79a{}, D79b{}, D79c{}},
	{D80a{}, D80b{}, D80c{}},
	{D81a{}, D81b{}, D81c{}},
	{D82a{}, D82b{}, D82c{}},
	{D83a{}, D83b{}, D83c{}},
	{D84a{}, D84b{}, D84c{}},
	{D85a{}, D85b{}, D85c{}},
	{D86a{}, D86b{}, D86c{}},
	{D87a{}, D87b{}, D87c{}},
	{D88a{}, D88b{}, D88c{}},
	{D89a{}, D89b{}, D89c{}},
	{D90a{}, D90b{}, D90c{}},
	{D91a{}, D91b{}, D91c{}},
	{D92a{}, D92b{}, D92c{}},
	{D93a{}, D93b{}, D93c{}},
	{D94a{}, D94b{}, D94c{}},
	{D95a{}, D95b{}, D95c{}},
	{D96a{}, D96b{}, D96c{}},
	{D97a{}, D97b{}, D97c{}},
	{D98a{}, D98b{}, D98c{}},
	{D99a{}, D99b{}, D99c{}},
	{D100a{}, D100b{}, D100c{}},
	{D101a{}, D101b{}, D101c{}},
	{D102a{}, D102b{}, D102c{}},
	{D103a{}, D103b{}, D103c{}},
	{D104a{}, D104b{}, D104c{}},
	{D105a{}, D105b{}, D105c{}},
	{D106a{}, D106b{}, D106c{}},
	{D107a{}, D107b{}, D107c{}},
	{D108a{}, D108b{}, D108c{}},
	{D109a{}, D109b{}, D109c{}},
	{D110a{}, D110b{}, D110c{}},
	{D111a{}, D111b{}, D111c{}},
	{D112a{}, D112b{}, D112c{}},
	{D113a{}, D113b{}, D113c{}},
	{D114a{}, D114b{}, D114c{}},
	{D115a{}, D115b{}, D115c{}},
	{D116a{}, D116b{}, D116c{}},
	{D117a{}, D117b{}, D117c{}},
	{D118a{}, D118b{}, D118c{}},
	{D119a{}, D119b{}, D119c{}},
	{D120a{}, D120b{}, D120c{}},
	{D121a{}, D121b{}, D121c{}},
	{D122a{}, D122b{}, D122c{}},
	{D123a{}, D123b{}, D123c{}},
	{D124a{}, D124b{}, D124c{}},
	{D125a{}, D125b{}, D125c{}},
	{D126a{}, D126b{}, D126c{}},
	{D127a{}, D127b{}, D127c{}},
	{D128a{}, D128b{}, D128c{}},
	{D129a{}, D129b{}, D129c{}},
	{D130a{}, D130b{}, D130c{}},
	{D131a{}, D131b{}, D131c{}},
	{D132a{}, D132b{}, D132c{}},
	{D133a{}, D133b{}, D133c{}},
	{D134a{}, D134b{}, D134c{}},
	{D135a{}, D135b{}, D135c{}},
	{D136a{}, D136b{}, D136c{}},
	{D137a{}, D137b{}, D137c{}},
	{D138a{}, D138b{}, D138c{}},
	{D139a{}, D139b{}, D139c{}},
	{D140a{}, D140b{}, D140c{}},
	{D141a{}, D141b{}, D141c{}},
	{D142a{}, D142b{}, D142c{}},
	{D143a{}, D143b{}, D143c{}},
	{D144a{}, D144b{}, D144c{}},
	{D145a{}, D145b{}, D145c{}},
	{D146a{}, D146b{}, D146c{}},
	{D147a{}, D147b{}, D147c{}},
	{D148a{}, D148b{}, D148c{}},
	{D149a{}, D149b{}, D149c{}},
	{D150a{}, D150b{}, D150c{}},
	{D151a{}, D151b{}, D151c{}},
	{D152a{}, D152b{}, D152c{}},
	{D153a{}, D153b{}, D153c{}},
	{D154a{}, D154b{}, D154c{}},
	{D155a{}, D155b{}, D155c{}},
	{D156a{}, D156b{}, D156c{}},
	{D157a{}, D157b{}, D157c{}},
	{D158a{}, D158b{}, D158c{}},
	{D159a{}, D159b{}, D159c{}},
	{D160a{}, D160b{}, D160c{}},
	{D161a{}, D161b{}, D161c{}},
	{D162a{}, D162b{}, D162c{}},
	{D163a{}, D163b{}, D163c{}},
	{D164a{}, D164b{}, D164c{}},
	{D165a{}, D165b{}, D165c{}},
	{D166a{}, D166b{}, D166c{}},
	{D167a{}, D167b{}, D167c{}},
	{D168a{}, D168b{}, D168c{}},
	{D169a{}, D169b{}, D169c{}},
	{D170a{}, D170b{}, D170c{}},
	{D171a{}, D171b{}, D171c{}},
	{D172a{}, D172b{}, D172c{}},
	{D173a{}, D173b{}, D173c{}},
	{D174a{}, D174b{}, D174c{}},
	{D175a{}, D175b{}, D175c{}},
	{D176a{}, D176b{}, D176c{}},
	{D177a{}, D177b{}, D177c{}},
	{D178a{}, D178b{}, D178c{}},
	{D179a{}, D179b{}, D179c{}},
	{D180a{}, D180b{}, D180c{}},
	{D181a{}, D181b{}, D181c{}},
	{D182a{}, D182b{}, D182c{}},
	{D183a{}, D183b{}, D183c{}},
	{D184a{}, D184b{}, D184c{}},
	{D185a{}, D185b{}, D185c{}},
	{D186a{}, D186b{}, D186c{}},
	{D187a{}, D187b{}, D187c{}},
	{D188a{}, D188b{}, D188c{}},
	{D189a{}, D189b{}, D189c{}},
	{D190a{}, D190b{}, D190c{}},
	{D191a{}, D191b{}, D191c{}},
	{D192a{}, D192b{}, D192c{}},
	{D193a{}, D193b{}, D193c{}},
	{D194a{}, D194b{}, D194c{}},
	{D195a{}, D195b{}, D195c{}},
	{D196a{}, D196b{}, D196c{}},
	{D197a{}, D197b{}, D197c{}},
	{D198a{}, D198b{}, D198c{}},
	{D199a{}, D199b{}, D199c{}},
	{D200a{}, D200b{}, D200c{}},
	{D201a{}, D201b{}, D201c{}},
	{D202a{}, D202b{}, D202c{}},
	{D203a{}, D203b{}, D203c{}},
	{D204a{}, D204b{}, D204c{}},
	{D205a{}, D205b{}, D205c{}},
	{D206a{}, D206b{}, D206c{}},
	{D207a{}, D207b{}, D207c{}},
	{D208a{}, D208b{}, D208c{}},
	{D209a{}, D209b{}, D209c{}},
	{D210a{}, D210b{}, D210c{}},
	{D211a{}, D211b{}, D211c{}},
	{D212a{}, D212b{}, D212c{}},
	{D213a{}, D213b{}, D213c{}},
	{D214a{}, D214b{}, D214c{}},
	{D215a{}, D215b{}, D215c{}},
	{D216a{}, D216b{}, D216c{}},
	{D217a{}, D217b{}, D217c{}},
	{D218a{}, D218b{}, D218c{}},
	{D219a{}, D219b{}, D219c{}},
	{D220a{}, D220b{}, D220c{}},
	{D221a{}, D221b{}, D221c{}},
	{D222a{}, D222b{}, D222c{}},
	{D223a{}, D223b{}, D223c{}},
	{D224a{}, D224b{}, D224c{}},
	{D225a{}, D225b{}, D225c{}},
	{D226a{}, D226b{}, D226c{}},
	{D227a{}, D227b{}, D227c{}},
	{D228a{}, D228b{}, D228c{}},
	{D229a{}, D229b{}, D229c{}},
	{D230a{}, D230b{}, D230c{}},
	{D231a{}, D231b{}, D231c{}},
	{D232a{}, D232b{}, D232c{}},
	{D233a{}, D233b{}, D233c{}},
	{D234a{}, D234b{}, D234c{}},
	{D235a{}, D235b{}, D235c{}},
	{D236a{}, D236b{}, D236c{}},
	{D237a{}, D237b{}, D237c{}},
	{D238a{}, D238b{}, D238c{}},
	{D239a{}, D239b{}, D239c{}},
	{D240a{}, D240b{}, D240c{}},
	{D241a{}, D241b{}, D241c{}},
	{D242a{}, D242b{}, D242c{}},
	{D243a{}, D243b{}, D243c{}},
	{D244a{}, D244b{}, D244c{}},
	{D245a{}, D245b{}, D245c{}},
	{D246a{}, D246b{}, D246c{}},
	{D247a{}, D247b{}, D247c{}},
	{D248a{}, D248b{}, D248c{}},
	{D249a{}, D249b{}, D249c{}},
	{D250a{}, D250b{}, D250c{}},
	{D251a{}, D251b{}, D251c{}},
	{D252a{}, D252b{}, D252c{}},
	{D253a{}, D253b{}, D253c{}},
	{D254a{}, D254b{}, D254c{}},
	{D255a{}, D255b{}, D255c{}},
	{D256a{}, D256b{}, D256c{}},
	{D257a{}, D257b{}, D257c{}},
	{D258a{}, D258b{}, D258c{}},
	{D259a{}, D259b{}, D259c{}},
	{D260a{}, D260b{}, D260c{}},
	{D261a{}, D261b{}, D261c{}},
	{D262a{}, D262b{}, D262c{}},
	{D263a{}, D263b{}, D263c{}},
	{D264a{}, D264b{}, D264c{}},
	{D265a{}, D265b{}, D265c{}},
	{D266a{}, D266b{}, D266c{}},
	{D267a{}, D267b{}, D267c{}},
	{D268a{}, D268b{}, D268c{}},
	{D269a{}, D269b{}, D269c{}},
}
