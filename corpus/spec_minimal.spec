Name:           test
Version:        0.1
Release:        1%{?dist}
Summary:        Test package

License:        MIT


%description
Test package


%changelog
* Thu Jun 07 2018 Nikola Forró <nforro@redhat.com> - 0.1-1
- first version
